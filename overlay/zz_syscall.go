package syscall

// SimDisk, when set, sees every file system call that matters for durability.
// Each method gets the call itself and may make it, alter it or fail it.
var SimDisk interface {
	Open(path string, flags int, real func() (int, error)) (int, error)
	Read(fd int, p []byte, real func([]byte) (int, error)) (int, error)
	Write(fd int, p []byte, off int64, real func([]byte) (int, error)) (int, error)
	Sync(fd int, real func() error) error
	Close(fd int, real func() error) error
	Truncate(fd int, n int64, real func() error) error
	Rename(from, to string, real func() error) error
	Link(from, to string, real func() error) error
	Unlink(path string, real func() error) error
}

// SimName, when set, is told of every decryption of a name.
var SimName func(iv, name []byte)
