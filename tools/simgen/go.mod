module simgen

go 1.23.0
