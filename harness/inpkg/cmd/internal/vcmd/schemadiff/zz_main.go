package schemadiff

// Main runs the command.
func Main() { main() }
