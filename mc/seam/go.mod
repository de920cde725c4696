module aaa.test/seam

go 1.23
