module github.com/velour/chat

go 1.13
