package hlib

// Vocabulary are the lexemes that mean something to the parser, and some that do not.
var Vocabulary = []string{
	"z1", "`q2`", "'s3'", "\"d4\"", "5", "(", ")", ",", "=", ";", ".", "*", "\x00",
	"CREATE", "TABLE", "TEMPORARY", "IF", "NOT", "EXISTS", "LIKE", "DATABASE", "DROP", "SET", "USE",
	"INT", "DECIMAL", "FLOAT", "VARCHAR", "TEXT", "DATE", "TIMESTAMP", "ENUM", "BOOL", "YEAR",
	"UNSIGNED", "ZEROFILL", "BINARY", "CHARACTER", "CHARSET", "COLLATE", "NULL", "DEFAULT", "CURRENT_TIMESTAMP", "NOW", "TRUE",
	"ON", "UPDATE", "DELETE", "AUTO_INCREMENT", "PRIMARY", "KEY", "UNIQUE", "COMMENT",
	"CONSTRAINT", "INDEX", "FULLTEXT", "SPATIAL", "FOREIGN", "CHECK", "USING", "BTREE", "HASH", "WITH", "PARSER", "ASC", "DESC",
	"REFERENCES", "MATCH", "FULL", "RESTRICT", "CASCADE", "NO", "ACTION",
	"ENGINE", "AVG_ROW_LENGTH", "CONNECTION", "DATA", "DIRECTORY", "INSERT_METHOD", "PACK_KEYS", "ROW_FORMAT", "COMPACT", "STATS_PERSISTENT", "TABLESPACE", "UNION", "DELAY_KEY_WRITE",
	"SELECT", "PARTITION", "REFERENCE",
}
