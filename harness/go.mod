module verif.local/harness

go 1.21

require (
	github.com/Vivino/rankdb v0.0.0
	github.com/anishathalye/porcupine v1.3.1
)

replace github.com/Vivino/rankdb => /repo
