module simrt

go 1.26
