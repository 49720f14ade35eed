module vh

go 1.27
