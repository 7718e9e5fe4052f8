module yieldgen

go 1.23
