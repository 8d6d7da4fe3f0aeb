module mutate

go 1.17
