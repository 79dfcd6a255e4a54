module simdriver

go 1.21
