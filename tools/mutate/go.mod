module mutate
go 1.19
