module github.com/chai2010/webp

go 1.23.0
