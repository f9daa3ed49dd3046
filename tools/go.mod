module veriftools

go 1.26
