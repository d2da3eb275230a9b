import json,glob,os
s=open('/verif/DESIGN.md').read()
missed={'c13-prefix':'names with a long beginning in common, precision of %s','c18-pool':'results are copied before the oracle parses anything','c10-season':'a location with daylight saving (nd.Seasonal)','c03-zero-time':'years 0000 and 0001 in templates 57, 58, 60','c04-many-escapes':'templates 54, 56 (runs of escapes)','c13-case-order':'upper and lower case names in C13Order','c14-buffered':'frames longer than the 4096-byte buffer (streams 20–22)','c15-wide-length':'lengths of 11 and more digits','c21-error':'C21 compares error texts as well as messages'}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    b=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s | %s | %s |'%(b,m['property'],m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/').replace('\n',' '),('at first missed; caught since: '+missed[b]) if b in missed else 'caught'))
t='''Each was written from the text of a property and the code, without regard to what the checks cover, and runs against the
quick check of its own property (`seeded/<id>/`). All are caught now; those that were missed at first led to the extension named.

| bug | check that catches it | breaks | needs | |
|-----|-----|--------|-------|---|
'''+'\n'.join(rows)
s=s.replace('@@BUGS@@','<!--bugs-->\n'+t+'\n<!--/bugs-->') if '@@BUGS@@' in s else s[:s.index('<!--bugs-->')]+'<!--bugs-->\n'+t+'\n'+s[s.index('<!--/bugs-->'):]
open('/verif/DESIGN.md','w').write(s)
