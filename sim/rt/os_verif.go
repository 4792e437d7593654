// Added to package os by /verif's build overlay. It is never part of a shipped build.
//
// It is the simulator's seam under every local file access: paths below VerifRoot are served from
// a scratch directory chosen by the simulator, and every open, stat and read of such a path first
// asks the simulator, which may delay it, fail it or cut it short.

package os

// VerifRoot is the virtual directory, VerifReal where its files really are.
var VerifRoot, VerifReal string

// VerifOp is asked before an operation ("open", "stat", "read") on a path below VerifRoot.
// For "read" n is the buffer length and the returned limit cuts the read.
var VerifOp func(op, name string, n int) (limit int, err error)

func verifUnder(name string) bool {
	if VerifRoot == "" || len(name) < len(VerifRoot) || name[:len(VerifRoot)] != VerifRoot {
		return false
	}
	return len(name) == len(VerifRoot) || name[len(VerifRoot)] == '/'
}

func verifPath(op, name string) (string, error) {
	if !verifUnder(name) {
		return name, nil
	}
	if VerifOp != nil {
		if _, err := VerifOp(op, name, 0); err != nil {
			return "", &PathError{Op: op, Path: name, Err: err}
		}
	}
	return VerifReal + name[len(VerifRoot):], nil
}

func verifFix(err error, name string) error {
	if pe, ok := err.(*PathError); ok {
		pe.Path = name
	}
	return err
}

func verifRead(f *File, b []byte) ([]byte, error) {
	if VerifOp != nil && verifUnder(f.name) {
		k, err := VerifOp("read", f.name, len(b))
		if err != nil {
			return nil, &PathError{Op: "read", Path: f.name, Err: err}
		}
		if k >= 0 && k < len(b) {
			b = b[:k]
		}
	}
	return b, nil
}
