package h

// Funcs are the harnesses by name.
var Funcs = map[string]func(){
	"C19Compute": C19Compute,
	"P5424":      P5424,
	"P5424Pair":  P5424Pair,
	"P3164":      P3164,
	"Keep3164":   Keep3164,
	"Keep5424":   Keep5424,
	"Reuse5424":  Reuse5424,
	"Reuse3164":  Reuse3164,
	"T3164":      T3164,
}
