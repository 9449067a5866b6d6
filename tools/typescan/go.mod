module typescan

go 1.21
