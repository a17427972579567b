package os

// ZVExit, if set, is called instead of ending the process.
var ZVExit func(code int)
