module gocheck

go 1.22
