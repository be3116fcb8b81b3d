package main

import (
	"qv/eng"
	"qv/props"
)

func main() { eng.Main(props.All()) }
