module mutate

go 1.16
