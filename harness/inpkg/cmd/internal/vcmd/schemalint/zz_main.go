package schemalint

// Main runs the command.
func Main() { main() }
