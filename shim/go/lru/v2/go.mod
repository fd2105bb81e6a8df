module github.com/hashicorp/golang-lru/v2

go 1.18
