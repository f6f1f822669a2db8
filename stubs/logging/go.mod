module github.com/amarin/logging

go 1.18
