module goscan

go 1.21
