package schemalex

// Main runs the command.
func Main() { main() }
