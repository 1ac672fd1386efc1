module verif.local/sim

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/dpeckett/archivefs v0.0.0
)

replace github.com/dpeckett/archivefs => /repo
