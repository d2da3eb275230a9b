From 41d71b0a88d8e79a317793a0321db92690ffa778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 01/14] fix: keep the whole version when the input ends right
 after it

With best effort, '<8>90' gave a partial message with version 9: in the states
after the second and third digit the error action left for the fail state before
the end-of-input action could store the version.
---
 rfc5424/machine.go    | 36 ++++++++++++++++++------------------
 rfc5424/machine.go.rl |  2 +-
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index ddd4a7c..bd0bd8c 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -11924,6 +11924,24 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 				output.message = string(m.text())
 
+			case 591, 592:
+
+				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
+
+				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
+				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
+				(m.p)--
+
+				{
+					goto st614
+				}
+
 			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
 				if _, ok := output.structuredData[string(m.text())]; ok {
@@ -11982,24 +12000,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 591, 592:
-
-				m.err = fmt.Errorf(ErrVersion+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				output.version = uint16(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-
-				m.err = fmt.Errorf(ErrParse+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 53, 54, 56:
 
 				m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index f0b9c82..b7d6c1c 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -265,7 +265,7 @@ nilvalue = '-';
 
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
-version = (nonzerodigit digit{0,2} <err(err_version)) >mark %from(set_version) %eof(set_version) @err(err_version);
+version = (nonzerodigit (digit{0,2} %eof(set_version) <err(err_version))) >mark %from(set_version) @err(err_version);
 
 timestamp = (nilvalue | (fulldate >mark 'T' fulltime %set_timestamp %err(set_timestamp))) @err(err_timestamp);
 
-- 
2.43.0


From 90eda5f7d52e2a82f18f9cd5c185a723b11b6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 02/14] fix: keep completed structured data in best-effort
 results

The error handlers of structured data deleted whatever element or parameter was
read last, also when that one was complete: '[a x="1"][]' lost the element a,
'[a x="1" =' lost the parameter x. Store elements and parameters only once
complete, so that there is nothing to delete.
---
 rfc5424/machine.go    | 626 ++++++++++++++++++------------------------
 rfc5424/machine.go.rl |  17 +-
 2 files changed, 274 insertions(+), 369 deletions(-)

diff --git a/rfc5424/machine.go b/rfc5424/machine.go
index bd0bd8c..61ccbbe 100644
--- a/rfc5424/machine.go
+++ b/rfc5424/machine.go
@@ -1535,10 +1535,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st0
 	tr36:
 
-		delete(output.structuredData, m.currentelem)
-		if len(output.structuredData) == 0 {
-			output.hasElements = false
-		}
 		m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1554,47 +1550,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr38:
-
-		if _, ok := output.structuredData[string(m.text())]; ok {
-			// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
-			m.err = fmt.Errorf(ErrSdIDDuplicated+ColumnPositionTemplate, m.p)
-			(m.p)--
-
-			{
-				goto st614
-			}
-		} else {
-			id := string(m.text())
-			output.structuredData[id] = map[string]string{}
-			output.hasElements = true
-			m.currentelem = id
-		}
-
-		delete(output.structuredData, m.currentelem)
-		if len(output.structuredData) == 0 {
-			output.hasElements = false
-		}
-		m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
-		(m.p)--
-
-		{
-			goto st614
-		}
-
-		m.err = fmt.Errorf(ErrStructuredData+ColumnPositionTemplate, m.p)
-		(m.p)--
-
-		{
-			goto st614
-		}
-
-		goto st0
-	tr42:
+	tr41:
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1610,7 +1567,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr80:
+	tr79:
 
 		m.err = fmt.Errorf(ErrEscape+ColumnPositionTemplate, m.p)
 		(m.p)--
@@ -1619,9 +1576,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st614
 		}
 
-		if len(output.structuredData) > 0 {
-			delete(output.structuredData[m.currentelem], m.currentparam)
-		}
 		m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 		(m.p)--
 
@@ -1637,7 +1591,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr615:
+	tr614:
 
 		if t, e := time.Parse(RFC3339MICRO, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
@@ -1659,7 +1613,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr627:
+	tr626:
 
 		// If error encountered within the message rule ...
 		if m.msgat > 0 {
@@ -1680,7 +1634,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st0
-	tr633:
+	tr632:
 
 		m.err = fmt.Errorf(ErrStructuredData+ColumnPositionTemplate, m.p)
 		(m.p)--
@@ -1784,7 +1738,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st8
 		}
 		goto tr9
-	tr616:
+	tr615:
 
 		if t, e := time.Parse(RFC3339MICRO, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
@@ -1949,8 +1903,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof604
 		}
 	stCase604:
-		goto tr632
-	tr632:
+		goto tr631
+	tr631:
 
 		(m.p)--
 
@@ -2008,11 +1962,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase18:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st64
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -2022,8 +1976,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st64
 		}
-		goto tr38
-	tr39:
+		goto tr36
+	tr38:
 
 		if _, ok := output.structuredData[string(m.text())]; ok {
 			// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
@@ -2040,6 +1994,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st19
+	tr97:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+
+			// Store text, leaving out the closing double quote
+			text := m.data[m.pb : m.p-1]
+
+			// Strip backslashes only when there are ...
+			if len(m.backslashat) > 0 {
+				text = common.RemoveBytes(text, m.backslashat, m.pb)
+			}
+			output.structuredData[m.currentelem][m.currentparam] = string(text)
+		}
+
 		goto st19
 	st19:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2047,22 +2017,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase19:
 		if (m.data)[(m.p)] == 33 {
-			goto tr43
+			goto tr42
 		}
 		switch {
 		case (m.data)[(m.p)] < 62:
 			if 35 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 60 {
-				goto tr43
+				goto tr42
 			}
 		case (m.data)[(m.p)] > 92:
 			if 94 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto tr43
+				goto tr42
 			}
 		default:
-			goto tr43
+			goto tr42
 		}
-		goto tr42
-	tr43:
+		goto tr41
+	tr42:
 
 		m.backslashat = []int{}
 
@@ -2078,7 +2048,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st21
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2088,7 +2058,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st21
 		}
-		goto tr42
+		goto tr41
 	st21:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof21
@@ -2098,7 +2068,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st22
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2108,7 +2078,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st22
 		}
-		goto tr42
+		goto tr41
 	st22:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof22
@@ -2118,7 +2088,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st23
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2128,7 +2098,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st23
 		}
-		goto tr42
+		goto tr41
 	st23:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof23
@@ -2138,7 +2108,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st24
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2148,7 +2118,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st24
 		}
-		goto tr42
+		goto tr41
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
@@ -2158,7 +2128,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st25
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2168,7 +2138,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st25
 		}
-		goto tr42
+		goto tr41
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
@@ -2178,7 +2148,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st26
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2188,7 +2158,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st26
 		}
-		goto tr42
+		goto tr41
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
@@ -2198,7 +2168,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st27
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2208,7 +2178,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st27
 		}
-		goto tr42
+		goto tr41
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -2218,7 +2188,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st28
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2228,7 +2198,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st28
 		}
-		goto tr42
+		goto tr41
 	st28:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof28
@@ -2238,7 +2208,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st29
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2248,7 +2218,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st29
 		}
-		goto tr42
+		goto tr41
 	st29:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof29
@@ -2258,7 +2228,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st30
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2268,7 +2238,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st30
 		}
-		goto tr42
+		goto tr41
 	st30:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof30
@@ -2278,7 +2248,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st31
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2288,7 +2258,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st31
 		}
-		goto tr42
+		goto tr41
 	st31:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof31
@@ -2298,7 +2268,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st32
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2308,7 +2278,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st32
 		}
-		goto tr42
+		goto tr41
 	st32:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof32
@@ -2318,7 +2288,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st33
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2328,7 +2298,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st33
 		}
-		goto tr42
+		goto tr41
 	st33:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof33
@@ -2338,7 +2308,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st34
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2348,7 +2318,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st34
 		}
-		goto tr42
+		goto tr41
 	st34:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof34
@@ -2358,7 +2328,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st35
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2368,7 +2338,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st35
 		}
-		goto tr42
+		goto tr41
 	st35:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof35
@@ -2378,7 +2348,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st36
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2388,7 +2358,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st36
 		}
-		goto tr42
+		goto tr41
 	st36:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof36
@@ -2398,7 +2368,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st37
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2408,7 +2378,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st37
 		}
-		goto tr42
+		goto tr41
 	st37:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof37
@@ -2418,7 +2388,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st38
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2428,7 +2398,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st38
 		}
-		goto tr42
+		goto tr41
 	st38:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof38
@@ -2438,7 +2408,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st39
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2448,7 +2418,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st39
 		}
-		goto tr42
+		goto tr41
 	st39:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof39
@@ -2458,7 +2428,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st40
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2468,7 +2438,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st40
 		}
-		goto tr42
+		goto tr41
 	st40:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof40
@@ -2478,7 +2448,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st41
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2488,7 +2458,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st41
 		}
-		goto tr42
+		goto tr41
 	st41:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof41
@@ -2498,7 +2468,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st42
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2508,7 +2478,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st42
 		}
-		goto tr42
+		goto tr41
 	st42:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof42
@@ -2518,7 +2488,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st43
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2528,7 +2498,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st43
 		}
-		goto tr42
+		goto tr41
 	st43:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof43
@@ -2538,7 +2508,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st44
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2548,7 +2518,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st44
 		}
-		goto tr42
+		goto tr41
 	st44:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof44
@@ -2558,7 +2528,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st45
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2568,7 +2538,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st45
 		}
-		goto tr42
+		goto tr41
 	st45:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof45
@@ -2578,7 +2548,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st46
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2588,7 +2558,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st46
 		}
-		goto tr42
+		goto tr41
 	st46:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof46
@@ -2598,7 +2568,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st47
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2608,7 +2578,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st47
 		}
-		goto tr42
+		goto tr41
 	st47:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof47
@@ -2618,7 +2588,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st48
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2628,7 +2598,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st48
 		}
-		goto tr42
+		goto tr41
 	st48:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof48
@@ -2638,7 +2608,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st49
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2648,7 +2618,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st49
 		}
-		goto tr42
+		goto tr41
 	st49:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof49
@@ -2658,7 +2628,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st50
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2668,7 +2638,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st50
 		}
-		goto tr42
+		goto tr41
 	st50:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof50
@@ -2678,7 +2648,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 33:
 			goto st51
 		case 61:
-			goto tr45
+			goto tr44
 		}
 		switch {
 		case (m.data)[(m.p)] > 92:
@@ -2688,17 +2658,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st51
 		}
-		goto tr42
+		goto tr41
 	st51:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof51
 		}
 	stCase51:
 		if (m.data)[(m.p)] == 61 {
-			goto tr45
+			goto tr44
 		}
-		goto tr42
-	tr45:
+		goto tr41
+	tr44:
 
 		m.currentparam = string(m.text())
 
@@ -2711,7 +2681,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 34 {
 			goto st53
 		}
-		goto tr42
+		goto tr41
 	st53:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof53
@@ -2719,44 +2689,44 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase53:
 		switch (m.data)[(m.p)] {
 		case 34:
-			goto tr78
+			goto tr77
 		case 92:
-			goto tr79
+			goto tr78
 		case 93:
-			goto tr80
+			goto tr79
 		case 224:
-			goto tr82
+			goto tr81
 		case 237:
-			goto tr84
+			goto tr83
 		case 240:
-			goto tr85
+			goto tr84
 		case 244:
-			goto tr87
+			goto tr86
 		}
 		switch {
 		case (m.data)[(m.p)] < 225:
 			switch {
 			case (m.data)[(m.p)] > 193:
 				if 194 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 223 {
-					goto tr81
+					goto tr80
 				}
 			case (m.data)[(m.p)] >= 128:
-				goto tr80
+				goto tr79
 			}
 		case (m.data)[(m.p)] > 239:
 			switch {
 			case (m.data)[(m.p)] > 243:
 				if 245 <= (m.data)[(m.p)] {
-					goto tr80
+					goto tr79
 				}
 			case (m.data)[(m.p)] >= 241:
-				goto tr86
+				goto tr85
 			}
 		default:
-			goto tr83
+			goto tr82
 		}
-		goto tr77
-	tr77:
+		goto tr76
+	tr76:
 
 		m.pb = m.p
 
@@ -2768,11 +2738,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase54:
 		switch (m.data)[(m.p)] {
 		case 34:
-			goto tr89
+			goto st55
 		case 92:
-			goto tr90
+			goto tr89
 		case 93:
-			goto tr80
+			goto tr79
 		case 224:
 			goto st58
 		case 237:
@@ -2790,13 +2760,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st57
 				}
 			case (m.data)[(m.p)] >= 128:
-				goto tr80
+				goto tr79
 			}
 		case (m.data)[(m.p)] > 239:
 			switch {
 			case (m.data)[(m.p)] > 243:
 				if 245 <= (m.data)[(m.p)] {
-					goto tr80
+					goto tr79
 				}
 			case (m.data)[(m.p)] >= 241:
 				goto st62
@@ -2805,39 +2775,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st59
 		}
 		goto st54
-	tr78:
+	tr77:
 
 		m.pb = m.p
 
-		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
-			// Store text
-			text := m.text()
-
-			// Strip backslashes only when there are ...
-			if len(m.backslashat) > 0 {
-				text = common.RemoveBytes(text, m.backslashat, m.pb)
-			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
-		}
-
-		goto st55
-	tr89:
-
-		if output.hasElements {
-			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
-
-			// Store text
-			text := m.text()
-
-			// Strip backslashes only when there are ...
-			if len(m.backslashat) > 0 {
-				text = common.RemoveBytes(text, m.backslashat, m.pb)
-			}
-			output.structuredData[m.currentelem][m.currentparam] = string(text)
-		}
-
 		goto st55
 	st55:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2846,12 +2787,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase55:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st19
+			goto tr97
 		case 93:
-			goto st606
+			goto tr98
 		}
-		goto tr42
-	tr41:
+		goto tr41
+	tr40:
 
 		if _, ok := output.structuredData[string(m.text())]; ok {
 			// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
@@ -2868,6 +2809,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			m.currentelem = id
 		}
 
+		goto st606
+	tr98:
+
+		if output.hasElements {
+			// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
+
+			// Store text, leaving out the closing double quote
+			text := m.data[m.pb : m.p-1]
+
+			// Strip backslashes only when there are ...
+			if len(m.backslashat) > 0 {
+				text = common.RemoveBytes(text, m.backslashat, m.pb)
+			}
+			output.structuredData[m.currentelem][m.currentparam] = string(text)
+		}
+
 		goto st606
 	st606:
 		if (m.p)++; (m.p) == (m.pe) {
@@ -2880,15 +2837,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 91:
 			goto st17
 		}
-		goto tr633
-	tr79:
+		goto tr632
+	tr78:
 
 		m.pb = m.p
 
 		m.backslashat = append(m.backslashat, m.p)
 
 		goto st56
-	tr90:
+	tr89:
 
 		m.backslashat = append(m.backslashat, m.p)
 
@@ -2904,8 +2861,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 92 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 93 {
 			goto st54
 		}
-		goto tr80
-	tr81:
+		goto tr79
+	tr80:
 
 		m.pb = m.p
 
@@ -2918,8 +2875,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st54
 		}
-		goto tr42
-	tr82:
+		goto tr41
+	tr81:
 
 		m.pb = m.p
 
@@ -2932,8 +2889,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 160 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st57
 		}
-		goto tr42
-	tr83:
+		goto tr41
+	tr82:
 
 		m.pb = m.p
 
@@ -2946,8 +2903,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st57
 		}
-		goto tr42
-	tr84:
+		goto tr41
+	tr83:
 
 		m.pb = m.p
 
@@ -2960,8 +2917,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 159 {
 			goto st57
 		}
-		goto tr42
-	tr85:
+		goto tr41
+	tr84:
 
 		m.pb = m.p
 
@@ -2974,8 +2931,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 144 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st59
 		}
-		goto tr42
-	tr86:
+		goto tr41
+	tr85:
 
 		m.pb = m.p
 
@@ -2988,8 +2945,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st59
 		}
-		goto tr42
-	tr87:
+		goto tr41
+	tr86:
 
 		m.pb = m.p
 
@@ -3002,7 +2959,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 143 {
 			goto st59
 		}
-		goto tr42
+		goto tr41
 	st64:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof64
@@ -3010,11 +2967,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase64:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st65
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3024,7 +2981,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st65
 		}
-		goto tr38
+		goto tr36
 	st65:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof65
@@ -3032,11 +2989,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase65:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st66
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3046,7 +3003,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st66
 		}
-		goto tr38
+		goto tr36
 	st66:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof66
@@ -3054,11 +3011,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase66:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st67
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3068,7 +3025,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st67
 		}
-		goto tr38
+		goto tr36
 	st67:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof67
@@ -3076,11 +3033,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase67:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st68
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3090,7 +3047,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st68
 		}
-		goto tr38
+		goto tr36
 	st68:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof68
@@ -3098,11 +3055,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase68:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st69
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3112,7 +3069,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st69
 		}
-		goto tr38
+		goto tr36
 	st69:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof69
@@ -3120,11 +3077,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase69:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st70
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3134,7 +3091,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st70
 		}
-		goto tr38
+		goto tr36
 	st70:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof70
@@ -3142,11 +3099,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase70:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st71
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3156,7 +3113,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st71
 		}
-		goto tr38
+		goto tr36
 	st71:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof71
@@ -3164,11 +3121,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase71:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st72
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3178,7 +3135,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st72
 		}
-		goto tr38
+		goto tr36
 	st72:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof72
@@ -3186,11 +3143,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase72:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st73
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3200,7 +3157,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st73
 		}
-		goto tr38
+		goto tr36
 	st73:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof73
@@ -3208,11 +3165,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase73:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st74
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3222,7 +3179,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st74
 		}
-		goto tr38
+		goto tr36
 	st74:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof74
@@ -3230,11 +3187,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase74:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st75
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3244,7 +3201,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st75
 		}
-		goto tr38
+		goto tr36
 	st75:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof75
@@ -3252,11 +3209,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase75:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st76
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3266,7 +3223,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st76
 		}
-		goto tr38
+		goto tr36
 	st76:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof76
@@ -3274,11 +3231,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase76:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st77
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3288,7 +3245,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st77
 		}
-		goto tr38
+		goto tr36
 	st77:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof77
@@ -3296,11 +3253,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase77:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st78
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3310,7 +3267,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st78
 		}
-		goto tr38
+		goto tr36
 	st78:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof78
@@ -3318,11 +3275,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase78:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st79
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3332,7 +3289,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st79
 		}
-		goto tr38
+		goto tr36
 	st79:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof79
@@ -3340,11 +3297,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase79:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st80
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3354,7 +3311,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st80
 		}
-		goto tr38
+		goto tr36
 	st80:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof80
@@ -3362,11 +3319,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase80:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st81
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3376,7 +3333,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st81
 		}
-		goto tr38
+		goto tr36
 	st81:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof81
@@ -3384,11 +3341,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase81:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st82
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3398,7 +3355,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st82
 		}
-		goto tr38
+		goto tr36
 	st82:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof82
@@ -3406,11 +3363,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase82:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st83
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3420,7 +3377,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st83
 		}
-		goto tr38
+		goto tr36
 	st83:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof83
@@ -3428,11 +3385,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase83:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st84
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3442,7 +3399,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st84
 		}
-		goto tr38
+		goto tr36
 	st84:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof84
@@ -3450,11 +3407,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase84:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st85
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3464,7 +3421,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st85
 		}
-		goto tr38
+		goto tr36
 	st85:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof85
@@ -3472,11 +3429,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase85:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st86
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3486,7 +3443,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st86
 		}
-		goto tr38
+		goto tr36
 	st86:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof86
@@ -3494,11 +3451,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase86:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st87
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3508,7 +3465,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st87
 		}
-		goto tr38
+		goto tr36
 	st87:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof87
@@ -3516,11 +3473,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase87:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st88
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3530,7 +3487,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st88
 		}
-		goto tr38
+		goto tr36
 	st88:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof88
@@ -3538,11 +3495,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase88:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st89
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3552,7 +3509,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st89
 		}
-		goto tr38
+		goto tr36
 	st89:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof89
@@ -3560,11 +3517,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase89:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st90
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3574,7 +3531,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st90
 		}
-		goto tr38
+		goto tr36
 	st90:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof90
@@ -3582,11 +3539,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase90:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st91
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3596,7 +3553,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st91
 		}
-		goto tr38
+		goto tr36
 	st91:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof91
@@ -3604,11 +3561,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase91:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st92
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3618,7 +3575,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st92
 		}
-		goto tr38
+		goto tr36
 	st92:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof92
@@ -3626,11 +3583,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase92:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st93
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3640,7 +3597,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st93
 		}
-		goto tr38
+		goto tr36
 	st93:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof93
@@ -3648,11 +3605,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase93:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 33:
 			goto st94
 		case 93:
-			goto tr41
+			goto tr40
 		}
 		switch {
 		case (m.data)[(m.p)] > 60:
@@ -3662,7 +3619,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case (m.data)[(m.p)] >= 35:
 			goto st94
 		}
-		goto tr38
+		goto tr36
 	st94:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof94
@@ -3670,11 +3627,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase94:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto tr39
+			goto tr38
 		case 93:
-			goto tr41
+			goto tr40
 		}
-		goto tr38
+		goto tr36
 	st95:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof95
@@ -9420,9 +9377,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase578:
 		if (m.data)[(m.p)] == 32 {
-			goto tr616
+			goto tr615
 		}
-		goto tr615
+		goto tr614
 	st579:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof579
@@ -9669,8 +9626,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof607
 		}
 	stCase607:
-		goto tr635
-	tr635:
+		goto tr634
+	tr634:
 
 		m.pb = m.p
 
@@ -9689,10 +9646,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase609:
 		if (m.data)[(m.p)] == 239 {
-			goto tr638
+			goto tr637
 		}
-		goto tr637
-	tr637:
+		goto tr636
+	tr636:
 
 		m.pb = m.p
 
@@ -9705,7 +9662,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase610:
 		goto st610
-	tr638:
+	tr637:
 
 		m.pb = m.p
 
@@ -9753,13 +9710,13 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st596
 				}
 			case (m.data)[(m.p)] >= 128:
-				goto tr627
+				goto tr626
 			}
 		case (m.data)[(m.p)] > 239:
 			switch {
 			case (m.data)[(m.p)] > 243:
 				if 245 <= (m.data)[(m.p)] {
-					goto tr627
+					goto tr626
 				}
 			case (m.data)[(m.p)] >= 241:
 				goto st601
@@ -9776,7 +9733,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st613
 		}
-		goto tr627
+		goto tr626
 	st597:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof597
@@ -9785,7 +9742,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 160 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st596
 		}
-		goto tr627
+		goto tr626
 	st598:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof598
@@ -9794,7 +9751,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st596
 		}
-		goto tr627
+		goto tr626
 	st599:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof599
@@ -9803,7 +9760,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 159 {
 			goto st596
 		}
-		goto tr627
+		goto tr626
 	st600:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof600
@@ -9812,7 +9769,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 144 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st598
 		}
-		goto tr627
+		goto tr626
 	st601:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof601
@@ -9821,7 +9778,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 191 {
 			goto st598
 		}
-		goto tr627
+		goto tr626
 	st602:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof602
@@ -9830,7 +9787,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 128 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 143 {
 			goto st598
 		}
-		goto tr627
+		goto tr626
 	st614:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof614
@@ -11877,12 +11834,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 17:
+			case 17, 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
 
-				delete(output.structuredData, m.currentelem)
-				if len(output.structuredData) == 0 {
-					output.hasElements = false
-				}
 				m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -11899,9 +11852,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 
 			case 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 55, 57, 58, 59, 60, 61, 62, 63:
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
@@ -11942,41 +11892,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-			case 18, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94:
-
-				if _, ok := output.structuredData[string(m.text())]; ok {
-					// As per RFC5424 section 6.3.2 SD-ID MUST NOT exist more than once in a message
-					m.err = fmt.Errorf(ErrSdIDDuplicated+ColumnPositionTemplate, m.p)
-					(m.p)--
-
-					{
-						goto st614
-					}
-				} else {
-					id := string(m.text())
-					output.structuredData[id] = map[string]string{}
-					output.hasElements = true
-					m.currentelem = id
-				}
-
-				delete(output.structuredData, m.currentelem)
-				if len(output.structuredData) == 0 {
-					output.hasElements = false
-				}
-				m.err = fmt.Errorf(ErrSdID+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
-				m.err = fmt.Errorf(ErrStructuredData+ColumnPositionTemplate, m.p)
-				(m.p)--
-
-				{
-					goto st614
-				}
-
 			case 2, 3, 593, 594, 595:
 
 				m.err = fmt.Errorf(ErrPrival+ColumnPositionTemplate, m.p)
@@ -12009,9 +11924,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 					goto st614
 				}
 
-				if len(output.structuredData) > 0 {
-					delete(output.structuredData[m.currentelem], m.currentparam)
-				}
 				m.err = fmt.Errorf(ErrSdParam+ColumnPositionTemplate, m.p)
 				(m.p)--
 
diff --git a/rfc5424/machine.go.rl b/rfc5424/machine.go.rl
index b7d6c1c..b3b19f0 100644
--- a/rfc5424/machine.go.rl
+++ b/rfc5424/machine.go.rl
@@ -144,8 +144,8 @@ action set_paramvalue {
 	if output.hasElements {
 		// (fixme) > what if SD-PARAM-NAME already exist for the current element (ie., current SD-ID)?
 
-		// Store text
-		text := m.text()
+		// Store text, leaving out the closing double quote
+		text := m.data[m.pb:m.p-1]
 
 		// Strip backslashes only when there are ...
 		if len(m.backslashat) > 0 {
@@ -214,19 +214,12 @@ action err_structureddata {
 }
 
 action err_sdid {
-	delete(output.structuredData, m.currentelem)
-	if len(output.structuredData) == 0 {
-		output.hasElements = false
-	}
 	m.err = fmt.Errorf(ErrSdID + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
 }
 
 action err_sdparam {
-	if len(output.structuredData) > 0 {
-		delete(output.structuredData[m.currentelem], m.currentparam)
-	}
 	m.err = fmt.Errorf(ErrSdParam + ColumnPositionTemplate, m.p)
 	fhold;
 	fgoto fail;
@@ -285,14 +278,14 @@ escapes = (bs >add_slash toescape) $err(err_escape);
 # As per section 6.3.3 param value MUST NOT contain '"', '\' and ']', unless they are escaped.
 # A backslash '\' followed by none of the this three characters is an invalid escape sequence.
 # In this case, treat it as a regular backslash and the following character as a regular character (not altering the invalid sequence).
-paramvalue = (utf8charwodelims* escapes*)+ >mark %set_paramvalue;
+paramvalue = (utf8charwodelims* escapes*)+ >mark;
 
 paramname = sdname >mark %set_paramname;
 
-sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam $err(err_sdparam);
+sdparam = (paramname '=' dq paramvalue dq) >ini_sdparam %set_paramvalue $err(err_sdparam);
 
 # (note) > finegrained semantics of section 6.3.2 not represented here since not so useful for parsing goal
-sdid = sdname >mark %set_id %err(set_id) $err(err_sdid);
+sdid = sdname >mark %set_id $err(err_sdid);
 
 sdelement = ('[' sdid (sp sdparam)* ']');
 
-- 
2.43.0


From 7a22853a89444e2db538ce552b7b84b475eec69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 03/14] fix: report an error whenever a RFC3164 message is not
 accepted

Some states have no error action, so inputs like '<1>Jan  1 00:00:00 h a\n' gave
neither a message nor an error.
---
 rfc3164/machine.go    | 3 +++
 rfc3164/machine.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..39e1593 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7252,6 +7252,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..edeaae7 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From 98029942b059b564e0679342d06ffcf4e13341f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 04/14] fix: do not lose octets of the RFC3164 message part

The message and the tag's content shared one cursor, and the tag and content were
stored before it was known whether the message part begins with a tag at all:
'h foo[1] there' gave the message '1] there' and the app-name foo.
---
 rfc3164/machine.go    | 1170 +++++++++++++++++++----------------------
 rfc3164/machine.go.rl |   55 +-
 2 files changed, 561 insertions(+), 664 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 39e1593..e2e1ed9 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -21,9 +21,9 @@ var (
 )
 
 const start int = 1
-const firstFinal int = 333
+const firstFinal int = 329
 
-const enFail int = 373
+const enFail int = 367
 const enMain int = 1
 
 type machine struct {
@@ -31,6 +31,11 @@ type machine struct {
 	cs         int
 	p, pe, eof int
 	pb         int
+	tagat      int
+	tagend     int
+	contentat  int
+	contentend int
+	msgat      int
 	err        error
 	bestEffort bool
 	yyyy       int
@@ -159,6 +164,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase21
 		case 22:
 			goto stCase22
+		case 329:
+			goto stCase329
+		case 330:
+			goto stCase330
+		case 331:
+			goto stCase331
+		case 332:
+			goto stCase332
 		case 333:
 			goto stCase333
 		case 334:
@@ -227,10 +240,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase365
 		case 366:
 			goto stCase366
-		case 367:
-			goto stCase367
-		case 368:
-			goto stCase368
 		case 23:
 			goto stCase23
 		case 24:
@@ -239,14 +248,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase25
 		case 26:
 			goto stCase26
-		case 369:
-			goto stCase369
-		case 370:
-			goto stCase370
-		case 371:
-			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -851,16 +852,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase327
 		case 328:
 			goto stCase328
-		case 329:
-			goto stCase329
-		case 330:
-			goto stCase330
-		case 331:
-			goto stCase331
-		case 332:
-			goto stCase332
-		case 373:
-			goto stCase373
+		case 367:
+			goto stCase367
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +867,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -884,14 +877,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -901,7 +894,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -911,7 +904,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -921,17 +914,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
-	tr333:
+	tr327:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st367
 		}
 
 		goto st0
@@ -1020,7 +1013,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 112:
 			goto st6
 		case 117:
-			goto st284
+			goto st280
 		}
 		goto tr7
 	st6:
@@ -1050,10 +1043,10 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 32:
 			goto st9
 		case 51:
-			goto st283
+			goto st279
 		}
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
-			goto st282
+			goto st278
 		}
 		goto tr7
 	st9:
@@ -1080,7 +1073,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase11:
 		if (m.data)[(m.p)] == 50 {
-			goto st281
+			goto st277
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st12
@@ -1165,7 +1158,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			if m.timezone != nil {
@@ -1179,14 +1172,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr335:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st367
 			}
 		} else {
 			output.timestamp = t
@@ -1217,7 +1210,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto tr39
 		}
 		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st27
+			goto st23
 		}
 		goto tr37
 	tr39:
@@ -1253,26 +1246,124 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto tr42
 	tr42:
 
-		m.pb = m.p
+		m.msgat = m.p
 
-		goto st333
-	st333:
+		goto st329
+	tr374:
+
+		output.tag = string(m.data[m.tagat:m.tagend])
+		output.content = string(m.data[m.contentat:m.contentend])
+
+		m.msgat = m.p
+
+		goto st329
+	st329:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof333
+			goto _testEof329
 		}
-	stCase333:
+	stCase329:
 		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	tr43:
 
-		m.pb = m.p
+		m.msgat = m.p
+
+		m.tagat = m.p
 
-		goto st334
+		goto st330
+	st330:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof330
+		}
+	stCase330:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st331
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st331:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof331
+		}
+	stCase331:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st332
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st332:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof332
+		}
+	stCase332:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st333
+			}
+		default:
+			goto st0
+		}
+		goto st329
+	st333:
+		if (m.p)++; (m.p) == (m.pe) {
+			goto _testEof333
+		}
+	stCase333:
+		switch (m.data)[(m.p)] {
+		case 58:
+			goto tr341
+		case 91:
+			goto tr342
+		case 127:
+			goto st0
+		}
+		switch {
+		case (m.data)[(m.p)] > 31:
+			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+				goto st334
+			}
+		default:
+			goto st0
+		}
+		goto st329
 	st334:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof334
@@ -1280,9 +1371,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1294,7 +1385,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st335:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof335
@@ -1302,9 +1393,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1316,7 +1407,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st336:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof336
@@ -1324,9 +1415,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1338,7 +1429,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st337:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof337
@@ -1346,9 +1437,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1360,7 +1451,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st338:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof338
@@ -1368,9 +1459,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1382,7 +1473,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st339:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof339
@@ -1390,9 +1481,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1404,7 +1495,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st340:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof340
@@ -1412,9 +1503,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1426,7 +1517,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st341:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof341
@@ -1434,9 +1525,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1448,7 +1539,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st342:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof342
@@ -1456,9 +1547,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1470,7 +1561,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st343:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof343
@@ -1478,9 +1569,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1492,7 +1583,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st344:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof344
@@ -1500,9 +1591,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1514,7 +1605,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st345:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof345
@@ -1522,9 +1613,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1536,7 +1627,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st346:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof346
@@ -1544,9 +1635,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1558,7 +1649,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st347:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof347
@@ -1566,9 +1657,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1580,7 +1671,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st348:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof348
@@ -1588,9 +1679,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1602,7 +1693,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st349:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof349
@@ -1610,9 +1701,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1624,7 +1715,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st350:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof350
@@ -1632,9 +1723,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1646,7 +1737,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st351:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof351
@@ -1654,9 +1745,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1668,7 +1759,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st352:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof352
@@ -1676,9 +1767,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1690,7 +1781,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st353:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof353
@@ -1698,9 +1789,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1712,7 +1803,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st354:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof354
@@ -1720,9 +1811,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1734,7 +1825,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st355:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof355
@@ -1742,9 +1833,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1756,7 +1847,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st356:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof356
@@ -1764,9 +1855,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1778,7 +1869,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st357:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof357
@@ -1786,9 +1877,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1800,7 +1891,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st358:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof358
@@ -1808,9 +1899,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1822,7 +1913,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st359:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof359
@@ -1830,9 +1921,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1844,7 +1935,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st360:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof360
@@ -1852,9 +1943,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
@@ -1866,7 +1957,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		default:
 			goto st0
 		}
-		goto st333
+		goto st329
 	st361:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof361
@@ -1874,107 +1965,100 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr341
 		case 91:
-			goto tr348
+			goto tr342
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st362
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
+	tr341:
+
+		m.tagend = m.p
+		m.contentat, m.contentend = m.p, m.p
+
+		goto st362
 	st362:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof362
 		}
 	stCase362:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 32:
+			goto st363
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st363
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto st329
 	st363:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof363
 		}
 	stCase363:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
-		case 127:
+		if (m.data)[(m.p)] == 127 {
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st364
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto tr374
+	tr342:
+
+		m.tagend = m.p
+		m.contentat, m.contentend = m.p, m.p
+
+		goto st364
 	st364:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof364
 		}
 	stCase364:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr376
 		case 127:
 			goto st0
 		}
-		switch {
-		case (m.data)[(m.p)] > 31:
-			if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-				goto st365
-			}
-		default:
+		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
+		goto tr375
+	tr375:
+
+		m.contentat = m.p
+
+		goto st365
 	st365:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof365
 		}
 	stCase365:
 		switch (m.data)[(m.p)] {
-		case 58:
-			goto tr347
-		case 91:
-			goto tr348
+		case 93:
+			goto tr378
 		case 127:
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
-	tr347:
+		goto st365
+	tr376:
+
+		m.contentat = m.p
+
+		m.contentend = m.p
 
-		output.tag = string(m.text())
+		goto st366
+	tr378:
+
+		m.contentend = m.p
 
 		goto st366
 	st366:
@@ -1983,193 +2067,63 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	stCase366:
 		switch (m.data)[(m.p)] {
-		case 32:
-			goto st367
+		case 58:
+			goto st362
 		case 127:
 			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
 			goto st0
 		}
-		goto st333
-	st367:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof367
-		}
-	stCase367:
-		if (m.data)[(m.p)] == 127 {
-			goto st0
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st0
-		}
-		goto tr42
-	tr348:
-
-		output.tag = string(m.text())
-
-		goto st368
-	st368:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof368
-		}
-	stCase368:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr381
-		case 127:
-			goto tr380
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto tr380
-		}
-		goto tr48
-	tr380:
-
-		m.pb = m.p
-
-		goto st23
+		goto st329
 	st23:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof23
 		}
 	stCase23:
-		if (m.data)[(m.p)] == 93 {
-			goto tr45
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		goto st23
-	tr45:
-
-		output.content = string(m.text())
-
-		goto st24
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st24
+		}
+		goto tr37
 	st24:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof24
 		}
 	stCase24:
-		switch (m.data)[(m.p)] {
-		case 58:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st25
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st25:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof25
 		}
 	stCase25:
-		switch (m.data)[(m.p)] {
-		case 32:
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
+		}
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
 			goto st26
-		case 93:
-			goto tr45
 		}
-		goto st23
+		goto tr37
 	st26:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto tr48
-	tr48:
-
-		m.pb = m.p
-
-		goto st369
-	st369:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof369
-		}
-	stCase369:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	tr383:
-
-		output.content = string(m.text())
-
-		goto st370
-	tr49:
-
-		output.content = string(m.text())
-
-		m.pb = m.p
-
-		goto st370
-	tr381:
-
-		m.pb = m.p
-
-		output.content = string(m.text())
-
-		goto st370
-	st370:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof370
-		}
-	stCase370:
-		switch (m.data)[(m.p)] {
-		case 58:
-			goto st371
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st371:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof371
-		}
-	stCase371:
-		switch (m.data)[(m.p)] {
-		case 32:
-			goto st372
-		case 93:
-			goto tr383
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 32 {
+			goto tr39
 		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
+		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
+			goto st27
 		}
-		goto tr48
+		goto tr37
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -5166,62 +5120,55 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if (m.data)[(m.p)] == 32 {
 			goto tr39
 		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st277
-		}
 		goto tr37
 	st277:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof277
 		}
 	stCase277:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st278
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
+			goto st13
 		}
-		goto tr37
+		goto tr7
 	st278:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof278
 		}
 	stCase278:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st279
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st279:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof279
 		}
 	stCase279:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
-		}
-		if 33 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 126 {
-			goto st280
+		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
+			goto st10
 		}
-		goto tr37
+		goto tr7
 	st280:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof280
 		}
 	stCase280:
-		if (m.data)[(m.p)] == 32 {
-			goto tr39
+		if (m.data)[(m.p)] == 103 {
+			goto st7
 		}
-		goto tr37
+		goto tr7
+	tr9:
+
+		m.pb = m.p
+
+		goto st281
 	st281:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof281
 		}
 	stCase281:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
-			goto st13
+		if (m.data)[(m.p)] == 101 {
+			goto st282
 		}
 		goto tr7
 	st282:
@@ -5229,17 +5176,22 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof282
 		}
 	stCase282:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
-			goto st10
+		if (m.data)[(m.p)] == 99 {
+			goto st7
 		}
 		goto tr7
+	tr10:
+
+		m.pb = m.p
+
+		goto st283
 	st283:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof283
 		}
 	stCase283:
-		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
-			goto st10
+		if (m.data)[(m.p)] == 101 {
+			goto st284
 		}
 		goto tr7
 	st284:
@@ -5247,11 +5199,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof284
 		}
 	stCase284:
-		if (m.data)[(m.p)] == 103 {
+		if (m.data)[(m.p)] == 98 {
 			goto st7
 		}
 		goto tr7
-	tr9:
+	tr11:
 
 		m.pb = m.p
 
@@ -5261,8 +5213,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof285
 		}
 	stCase285:
-		if (m.data)[(m.p)] == 101 {
+		switch (m.data)[(m.p)] {
+		case 97:
 			goto st286
+		case 117:
+			goto st287
 		}
 		goto tr7
 	st286:
@@ -5270,57 +5225,60 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof286
 		}
 	stCase286:
-		if (m.data)[(m.p)] == 99 {
+		if (m.data)[(m.p)] == 110 {
 			goto st7
 		}
 		goto tr7
-	tr10:
-
-		m.pb = m.p
-
-		goto st287
 	st287:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof287
 		}
 	stCase287:
-		if (m.data)[(m.p)] == 101 {
-			goto st288
+		switch (m.data)[(m.p)] {
+		case 108:
+			goto st7
+		case 110:
+			goto st7
 		}
 		goto tr7
+	tr12:
+
+		m.pb = m.p
+
+		goto st288
 	st288:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof288
 		}
 	stCase288:
-		if (m.data)[(m.p)] == 98 {
-			goto st7
+		if (m.data)[(m.p)] == 97 {
+			goto st289
 		}
 		goto tr7
-	tr11:
-
-		m.pb = m.p
-
-		goto st289
 	st289:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof289
 		}
 	stCase289:
 		switch (m.data)[(m.p)] {
-		case 97:
-			goto st290
-		case 117:
-			goto st291
+		case 114:
+			goto st7
+		case 121:
+			goto st7
 		}
 		goto tr7
+	tr13:
+
+		m.pb = m.p
+
+		goto st290
 	st290:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof290
 		}
 	stCase290:
-		if (m.data)[(m.p)] == 110 {
-			goto st7
+		if (m.data)[(m.p)] == 111 {
+			goto st291
 		}
 		goto tr7
 	st291:
@@ -5328,14 +5286,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof291
 		}
 	stCase291:
-		switch (m.data)[(m.p)] {
-		case 108:
-			goto st7
-		case 110:
+		if (m.data)[(m.p)] == 118 {
 			goto st7
 		}
 		goto tr7
-	tr12:
+	tr14:
 
 		m.pb = m.p
 
@@ -5345,7 +5300,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof292
 		}
 	stCase292:
-		if (m.data)[(m.p)] == 97 {
+		if (m.data)[(m.p)] == 99 {
 			goto st293
 		}
 		goto tr7
@@ -5354,14 +5309,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof293
 		}
 	stCase293:
-		switch (m.data)[(m.p)] {
-		case 114:
-			goto st7
-		case 121:
+		if (m.data)[(m.p)] == 116 {
 			goto st7
 		}
 		goto tr7
-	tr13:
+	tr15:
 
 		m.pb = m.p
 
@@ -5371,7 +5323,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof294
 		}
 	stCase294:
-		if (m.data)[(m.p)] == 111 {
+		if (m.data)[(m.p)] == 101 {
 			goto st295
 		}
 		goto tr7
@@ -5380,11 +5332,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof295
 		}
 	stCase295:
-		if (m.data)[(m.p)] == 118 {
+		if (m.data)[(m.p)] == 112 {
 			goto st7
 		}
 		goto tr7
-	tr14:
+	tr16:
 
 		m.pb = m.p
 
@@ -5394,52 +5346,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof296
 		}
 	stCase296:
-		if (m.data)[(m.p)] == 99 {
-			goto st297
-		}
-		goto tr7
-	st297:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof297
-		}
-	stCase297:
-		if (m.data)[(m.p)] == 116 {
-			goto st7
-		}
-		goto tr7
-	tr15:
-
-		m.pb = m.p
-
-		goto st298
-	st298:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof298
-		}
-	stCase298:
-		if (m.data)[(m.p)] == 101 {
-			goto st299
-		}
-		goto tr7
-	st299:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof299
-		}
-	stCase299:
-		if (m.data)[(m.p)] == 112 {
-			goto st7
-		}
-		goto tr7
-	tr16:
-
-		m.pb = m.p
-
-		goto st300
-	st300:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof300
-		}
-	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5448,14 +5354,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st301
+			goto st297
 		}
 		goto st0
-	st301:
+	st297:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof301
+			goto _testEof297
 		}
-	stCase301:
+	stCase297:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5464,14 +5370,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st302
+			goto st298
 		}
 		goto st0
-	st302:
+	st298:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof302
+			goto _testEof298
 		}
-	stCase302:
+	stCase298:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5480,14 +5386,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st303
+			goto st299
 		}
 		goto st0
-	st303:
+	st299:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof303
+			goto _testEof299
 		}
-	stCase303:
+	stCase299:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5496,14 +5402,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st304
+			goto st300
 		}
 		goto st0
-	st304:
+	st300:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof304
+			goto _testEof300
 		}
-	stCase304:
+	stCase300:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 48:
@@ -5521,16 +5427,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st305
+			goto st301
 		case 561:
-			goto st329
+			goto st325
 		}
 		goto st0
-	st305:
+	st301:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof305
+			goto _testEof301
 		}
-	stCase305:
+	stCase301:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5539,14 +5445,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st306
+			goto st302
 		}
 		goto st0
-	st306:
+	st302:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof306
+			goto _testEof302
 		}
-	stCase306:
+	stCase302:
 		_widec = int16((m.data)[(m.p)])
 		if 45 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 45 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5555,14 +5461,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 557 {
-			goto st307
+			goto st303
 		}
 		goto st0
-	st307:
+	st303:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof307
+			goto _testEof303
 		}
-	stCase307:
+	stCase303:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 49:
@@ -5587,19 +5493,19 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 560:
-			goto st308
+			goto st304
 		case 563:
-			goto st328
+			goto st324
 		}
 		if 561 <= _widec && _widec <= 562 {
-			goto st327
+			goto st323
 		}
 		goto st0
-	st308:
+	st304:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof308
+			goto _testEof304
 		}
-	stCase308:
+	stCase304:
 		_widec = int16((m.data)[(m.p)])
 		if 49 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5608,14 +5514,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 561 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st309:
+	st305:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof309
+			goto _testEof305
 		}
-	stCase309:
+	stCase305:
 		_widec = int16((m.data)[(m.p)])
 		if 84 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 84 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5624,14 +5530,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 596 {
-			goto st310
+			goto st306
 		}
 		goto st0
-	st310:
+	st306:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof310
+			goto _testEof306
 		}
-	stCase310:
+	stCase306:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5648,17 +5554,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st326
+			goto st322
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st311
+			goto st307
 		}
 		goto st0
-	st311:
+	st307:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof311
+			goto _testEof307
 		}
-	stCase311:
+	stCase307:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5667,14 +5573,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st312:
+	st308:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof312
+			goto _testEof308
 		}
-	stCase312:
+	stCase308:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5683,14 +5589,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st313
+			goto st309
 		}
 		goto st0
-	st313:
+	st309:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof313
+			goto _testEof309
 		}
-	stCase313:
+	stCase309:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5699,14 +5605,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st314
+			goto st310
 		}
 		goto st0
-	st314:
+	st310:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof314
+			goto _testEof310
 		}
-	stCase314:
+	stCase310:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5715,14 +5621,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st315
+			goto st311
 		}
 		goto st0
-	st315:
+	st311:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof315
+			goto _testEof311
 		}
-	stCase315:
+	stCase311:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5731,14 +5637,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st316
+			goto st312
 		}
 		goto st0
-	st316:
+	st312:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof316
+			goto _testEof312
 		}
-	stCase316:
+	stCase312:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5747,14 +5653,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st317
+			goto st313
 		}
 		goto st0
-	st317:
+	st313:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof317
+			goto _testEof313
 		}
-	stCase317:
+	stCase313:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5763,14 +5669,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st318
+			goto st314
 		}
 		goto st0
-	st318:
+	st314:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof318
+			goto _testEof314
 		}
-	stCase318:
+	stCase314:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] < 45:
@@ -5795,18 +5701,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		switch _widec {
 		case 555:
-			goto st319
+			goto st315
 		case 557:
-			goto st319
+			goto st315
 		case 602:
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st319:
+		goto tr327
+	st315:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof319
+			goto _testEof315
 		}
-	stCase319:
+	stCase315:
 		_widec = int16((m.data)[(m.p)])
 		switch {
 		case (m.data)[(m.p)] > 49:
@@ -5823,17 +5729,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 562 {
-			goto st325
+			goto st321
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st320
+			goto st316
 		}
-		goto tr333
-	st320:
+		goto tr327
+	st316:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof320
+			goto _testEof316
 		}
-	stCase320:
+	stCase316:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5842,14 +5748,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st321:
+		goto tr327
+	st317:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof321
+			goto _testEof317
 		}
-	stCase321:
+	stCase317:
 		_widec = int16((m.data)[(m.p)])
 		if 58 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 58 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5858,14 +5764,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if _widec == 570 {
-			goto st322
+			goto st318
 		}
-		goto tr333
-	st322:
+		goto tr327
+	st318:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof322
+			goto _testEof318
 		}
-	stCase322:
+	stCase318:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 53 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5874,14 +5780,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 565 {
-			goto st323
+			goto st319
 		}
-		goto tr333
-	st323:
+		goto tr327
+	st319:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof323
+			goto _testEof319
 		}
-	stCase323:
+	stCase319:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5890,23 +5796,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st324
+			goto st320
 		}
-		goto tr333
-	st324:
+		goto tr327
+	st320:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof324
+			goto _testEof320
 		}
-	stCase324:
+	stCase320:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr335
 		}
 		goto st0
-	st325:
+	st321:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof325
+			goto _testEof321
 		}
-	stCase325:
+	stCase321:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5915,14 +5821,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st321
+			goto st317
 		}
-		goto tr333
-	st326:
+		goto tr327
+	st322:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof326
+			goto _testEof322
 		}
-	stCase326:
+	stCase322:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 51 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5931,14 +5837,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 563 {
-			goto st312
+			goto st308
 		}
 		goto st0
-	st327:
+	st323:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof327
+			goto _testEof323
 		}
-	stCase327:
+	stCase323:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5947,14 +5853,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 569 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st328:
+	st324:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof328
+			goto _testEof324
 		}
-	stCase328:
+	stCase324:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5963,14 +5869,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 561 {
-			goto st309
+			goto st305
 		}
 		goto st0
-	st329:
+	st325:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof329
+			goto _testEof325
 		}
-	stCase329:
+	stCase325:
 		_widec = int16((m.data)[(m.p)])
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 50 {
 			_widec = 256 + (int16((m.data)[(m.p)]) - 0)
@@ -5979,43 +5885,43 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			}
 		}
 		if 560 <= _widec && _widec <= 562 {
-			goto st306
+			goto st302
 		}
 		goto st0
 	tr4:
 
 		m.pb = m.p
 
-		goto st330
-	st330:
+		goto st326
+	st326:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof330
+			goto _testEof326
 		}
-	stCase330:
+	stCase326:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
 		switch (m.data)[(m.p)] {
 		case 57:
-			goto st332
+			goto st328
 		case 62:
 			goto st4
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
-			goto st331
+			goto st327
 		}
 		goto tr2
 	tr5:
 
 		m.pb = m.p
 
-		goto st331
-	st331:
+		goto st327
+	st327:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof331
+			goto _testEof327
 		}
-	stCase331:
+	stCase327:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
@@ -6027,11 +5933,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st332:
+	st328:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof332
+			goto _testEof328
 		}
-	stCase332:
+	stCase328:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
@@ -6043,18 +5949,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st367:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof367
 		}
-	stCase373:
+	stCase367:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st367
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6119,6 +6025,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof22:
 		m.cs = 22
 		goto _testEof
+	_testEof329:
+		m.cs = 329
+		goto _testEof
+	_testEof330:
+		m.cs = 330
+		goto _testEof
+	_testEof331:
+		m.cs = 331
+		goto _testEof
+	_testEof332:
+		m.cs = 332
+		goto _testEof
 	_testEof333:
 		m.cs = 333
 		goto _testEof
@@ -6221,12 +6139,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof366:
 		m.cs = 366
 		goto _testEof
-	_testEof367:
-		m.cs = 367
-		goto _testEof
-	_testEof368:
-		m.cs = 368
-		goto _testEof
 	_testEof23:
 		m.cs = 23
 		goto _testEof
@@ -6239,18 +6151,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof26:
 		m.cs = 26
 		goto _testEof
-	_testEof369:
-		m.cs = 369
-		goto _testEof
-	_testEof370:
-		m.cs = 370
-		goto _testEof
-	_testEof371:
-		m.cs = 371
-		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7157,20 +7057,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof328:
 		m.cs = 328
 		goto _testEof
-	_testEof329:
-		m.cs = 329
-		goto _testEof
-	_testEof330:
-		m.cs = 330
-		goto _testEof
-	_testEof331:
-		m.cs = 331
-		goto _testEof
-	_testEof332:
-		m.cs = 332
-		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof367:
+		m.cs = 367
 		goto _testEof
 
 	_testEof:
@@ -7178,9 +7066,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366:
 
-				output.message = string(m.text())
+				output.message = string(m.data[m.msgat:m.p])
 
 			case 1:
 
@@ -7188,34 +7076,34 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
+			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295:
 
 				m.err = fmt.Errorf(errTimestamp, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 318, 319, 320, 321, 322, 323, 325:
+			case 314, 315, 316, 317, 318, 319, 321:
 
 				m.err = fmt.Errorf(errRFC3339, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
+			case 20, 21, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276:
 
 				m.err = fmt.Errorf(errHostname, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			case 22:
@@ -7224,23 +7112,23 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
-			case 2, 3, 330, 331, 332:
+			case 2, 3, 326, 327, 328:
 
 				m.err = fmt.Errorf(errPrival, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st367
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index edeaae7..7e6248b 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -69,16 +69,35 @@ action set_hostname {
 	output.hostname = string(m.text())
 }
 
+action mark_tag {
+	m.tagat = m.p
+}
+
+action end_tag {
+	m.tagend = m.p
+	m.contentat, m.contentend = m.p, m.p
+}
+
+action mark_content {
+	m.contentat = m.p
+}
+
+action end_content {
+	m.contentend = m.p
+}
+
+# Only here it is known that the message part begins with a tag
 action set_tag {
-	output.tag = string(m.text())
+	output.tag = string(m.data[m.tagat:m.tagend])
+	output.content = string(m.data[m.contentat:m.contentend])
 }
 
-action set_content {
-	output.content = string(m.text())
+action mark_message {
+	m.msgat = m.p
 }
 
 action set_message {
-	output.message = string(m.text())
+	output.message = string(m.data[m.msgat:m.p])
 }
 
 action err_prival {
@@ -117,18 +136,6 @@ action err_tag {
 	fgoto fail;
 }
 
-action err_contentstart {
-	m.err = fmt.Errorf(errContentStart, m.p)
-	fhold;
-	fgoto fail;
-}
-
-action err_content {
-	m.err = fmt.Errorf(errContent, m.p)
-	fhold;
-	fgoto fail;
-}
-
 pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
@@ -143,18 +150,15 @@ hostname = hostnamerange >mark %set_hostname $err(err_hostname);
 # note > alnum{1,32} is too restrictive (eg., no dashes)
 # note > see https://tools.ietf.org/html/rfc2234#section-2.1 for an interpretation of "ABNF alphanumeric" as stated by RFC 3164 regarding the tag
 # note > while RFC3164 assumes only ABNF alphanumeric process names, many BSD-syslog contains processe names with additional characters (-, _, .)
-tag = (print -- [ :\[]){1,32} >mark %set_tag @err(err_tag);
+tag = (print -- [ :\[]){1,32} >mark_tag %end_tag @err(err_tag);
 
 visible = print | 0x80..0xFF;
 
-# The first not alphanumeric character starts the content (usually containing a PID) part of the message part
-contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
-
-content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
+content = '[' (visible - ']')* >mark_content %end_content ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
-mex = visible+ >mark %set_message;
+mex = visible+ >mark_message %set_message;
 
-msg = (tag content? ':' sp)? mex;
+msg = mex | (tag content? ':' sp (mex >set_tag));
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
@@ -169,6 +173,11 @@ type machine struct {
 	cs           int
 	p, pe, eof   int
 	pb           int
+	tagat        int
+	tagend       int
+	contentat    int
+	contentend   int
+	msgat        int
 	err          error
 	bestEffort   bool
 	yyyy         int
-- 
2.43.0


From 65941363358a57aa502aadbca39051ce7712638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 05/14] fix: build messages concurrently without sharing state

SetParameter passed the element id and parameter name on through package-level
variables, so goroutines building different messages mixed up their parameters.
---
 rfc5424/builder.go    | 13 ++++++-------
 rfc5424/builder.go.rl | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..deac412 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,11 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	return sm.setParam(from, value, "", "")
+}
+
+func (sm *SyslogMessage) setParam(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9330,12 +9331,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.setParam(sdpn, name, id, "")
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.setParam(sdpv, value, id, name)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..3919b41 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -151,10 +151,11 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    return sm.setParam(from, value, "", "")
+}
+
+func (sm *SyslogMessage) setParam(from entrypoint, value, currentid, currentparamname string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +234,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.setParam(sdpn, name, id, "")
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.setParam(sdpv, value, id, name)
             }
         }
     }
-- 
2.43.0


From 9aeb077e799c08033ec1e5351b96de9c3ed9c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 06/14] fix: never change an existing parameter, nor add one
 with an invalid value

As documented SetParameter is discarded when the parameter exists already, but it
replaced the value, or emptied it when the new value was not valid; and an invalid
value added an empty parameter.
---
 rfc5424/builder.go    | 9 +++++++--
 rfc5424/builder.go.rl | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index deac412..35455b8 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9330,10 +9330,15 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	// We can create parameter iff the given element id exists
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
-		if _, ok := elements[id]; ok {
+		if params, ok := elements[id]; ok {
+			// Existing parameters stay as they are
+			if _, ok := params[name]; ok {
+				return sm
+			}
 			sm.setParam(sdpn, name, id, "")
 			// We can assign parameter value iff the given parameter key exists
-			if _, ok := elements[id][name]; ok {
+			if _, ok := params[name]; ok {
+				delete(params, name)
 				sm.setParam(sdpv, value, id, name)
 			}
 		}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3919b41..d50fc85 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -233,10 +233,15 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     // We can create parameter iff the given element id exists
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
-        if _, ok := elements[id]; ok {
+        if params, ok := elements[id]; ok {
+            // Existing parameters stay as they are
+            if _, ok := params[name]; ok {
+                return sm
+            }
             sm.setParam(sdpn, name, id, "")
             // We can assign parameter value iff the given parameter key exists
-            if _, ok := elements[id][name]; ok {
+            if _, ok := params[name]; ok {
+                delete(params, name)
                 sm.setParam(sdpv, value, id, name)
             }
         }
-- 
2.43.0


From b1fdb9e039ac66e7c41bd13610524b2f142df585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 07/14] fix: serialise non-ASCII parameter values

EscapeBytes kept only the first byte of every multi-byte character, and converted
that one to a rune.
---
 common/functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..ce0e43f 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -30,12 +30,12 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
 	res := ""
-	for i, c := range value {
+	for _, c := range []byte(value) {
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
 			res += `\`
 		}
-		res += string(value[i])
+		res += string([]byte{c})
 	}
 
 	return res
-- 
2.43.0


From efe4539390e1241ba826c64fc30019d74bda9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 08/14] fix: read MSGLEN as the documented NONZERO-DIGIT *DIGIT

The bounds of isDigit and isNonZeroDigit were off by one, so '/' counted as a digit
and lengths with leading zeros were accepted.
---
 octetcounting/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..4f01450 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -18,12 +18,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
 // isNonZeroDigit returns true if the byte represents a number in ]0,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 7c8bca1235aa89fdbae1524e1975c694cab602e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 09/14] fix: do not take a NUL octet for the end of an
 octet-counted stream

A NUL after a frame silently ended the parsing without an error, dropping the rest of
the stream, and a NUL after the length was swallowed.
---
 octetcounting/scanner.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4f01450..4cacbe8 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,10 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
-	if err != nil {
-		return eof
-	}
-	return b
+	return b, err == nil
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +52,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +68,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +90,13 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	b, _ := s.read()
+	buf.WriteByte(b)
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From 9b0175dd809cf8b31fc82fc59cb342fd4e68d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 10/14] fix: do not deliver messages of a previous stream again

A non-transparent parser kept the last message of a stream, and delivered it once
more, ahead of the messages of the next stream it was given.
---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..fb5c102 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget what a previous stream left behind
+	m.candidate = nil
+	m.lastChunk = nil
+	m.readError = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..4af016b 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -146,6 +146,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget what a previous stream left behind
+    m.candidate = nil
+    m.lastChunk = nil
+    m.readError = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From 7a4272f2394c8abdc1e29332893698d3946125e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 11/14] fix: rfc3164: take the priority only once its closing
 bracket is read

In best effort mode <192>... returned a message with priority 19 and <14x one
with priority 14.
---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index e2e1ed9..f2995b9 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -957,14 +957,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -5898,15 +5900,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof326
 		}
 	stCase326:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st328
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st327
@@ -5922,12 +5920,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof327
 		}
 	stCase327:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -5938,12 +5932,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof328
 		}
 	stCase328:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 7e6248b..97c64ba 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -136,7 +136,7 @@ action err_tag {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From 7b78f6d5d7e7bc2f6ac782389d9e106007f16631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:54 +0000
Subject: [PATCH 12/14] fix: turning best effort on after the creation of a
 stream parser reaches its message parser

---
 nontransparent/parser.go    | 4 ++++
 nontransparent/parser.go.rl | 4 ++++
 octetcounting/parser.go     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index fb5c102..eca747b 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -242,6 +242,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	// Also when the parser was created without it
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 4af016b..9d4f1f8 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -133,6 +133,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+    // Also when the parser was created without it
+    if m.internal != nil {
+        m.internal.WithBestEffort()
+    }
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..5f6312b 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,10 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	// Also when the parser was created without it
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From 76b365197b7e9451130870f2565cd421e7f34c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:47 +0000
Subject: [PATCH 13/14] fix: rfc5424: a message with an empty set of structured
 data elements serialises with a nil value for them

---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 35455b8..8faa6e6 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9381,7 +9381,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index d50fc85..3f27c60 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -284,7 +284,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0


From 0d7857e4d60c82112427eeb3025184bd8a8d4fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:22 +0000
Subject: [PATCH 14/14] fix: octetcounting: maximum message lengths larger than
 what fits in memory (or in an int with the header) work

---
 octetcounting/scanner.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 4cacbe8..9ea2915 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -23,6 +23,9 @@ func isNonZeroDigit(ch byte) bool {
 	return (ch >= 49 && ch <= 57)
 }
 
+// maxBufferSize bounds the memory set aside for a stream before anything is read from it
+const maxBufferSize = 1 << 16
+
 // Scanner represents the lexical scanner for octet counting transport.
 type Scanner struct {
 	r      *bufio.Reader
@@ -32,6 +35,9 @@ type Scanner struct {
 
 // NewScanner returns a pointer to a new instance of Scanner.
 func NewScanner(r io.Reader, maxLength int) *Scanner {
+	if maxLength > maxBufferSize {
+		maxLength = maxBufferSize
+	}
 	return &Scanner{
 		r: bufio.NewReaderSize(r, maxLength+20), // max uint64 is 19 characters + a space
 	}
@@ -119,6 +125,12 @@ func (s *Scanner) scanSyslogMsg() Token {
 	// Check the reader contains almost MSGLEN characters
 	n := int(s.msglen)
 	b, err := s.r.Peek(n)
+	if err == bufio.ErrBufferFull {
+		// Longer than the buffer, so read it piece by piece
+		var buf bytes.Buffer
+		_, err = io.CopyN(&buf, s.r, int64(n))
+		b, n = buf.Bytes(), 0
+	}
 	if err != nil {
 		return Token{
 			typ: EOF,
-- 
2.43.0

