module govc

go 1.23
