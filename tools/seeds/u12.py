id="U12-warn-threshold"; prop="U12"
needs="A threshold of Error and a formatted warning."
breaks="Formatted warnings are printed although the threshold is above them."
edits=[("log/logger.go","""	if defaultLoggerLevel <= LogLevelWarn {
		msg := l.insertLevelLabel(LogLevelWarn, format)
""","""	if defaultLoggerLevel < LogLevelFatal {
		msg := l.insertLevelLabel(LogLevelWarn, format)
""")]
demos={"log__seed_test.go":'''package log
import ("testing";"os";"io")
func TestSeed(t *testing.T) {
	old := os.Stdout; r, w, _ := os.Pipe(); os.Stdout = w
	SetLevelForDefaultLogger(LogLevelError); NewDefaultLogger().Warnf("x"); SetLevelForDefaultLogger(LogLevelDebug)
	os.Stdout = old; w.Close(); b, _ := io.ReadAll(r)
	if len(b) != 0 { t.Error(string(b)) }
}
'''}
