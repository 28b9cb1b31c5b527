package c02

import schemalex "github.com/schemalex/schemalex"

// keywords is the vocabulary the tool documents as reserved, with the kind each word must get.
var keywords = []struct {
	word string
	typ  schemalex.TokenType
}{
	{"ACTION", schemalex.ACTION},
	{"AUTO_INCREMENT", schemalex.AUTO_INCREMENT},
	{"AVG_ROW_LENGTH", schemalex.AVG_ROW_LENGTH},
	{"BIGINT", schemalex.BIGINT},
	{"BINARY", schemalex.BINARY},
	{"BIT", schemalex.BIT},
	{"BLOB", schemalex.BLOB},
	{"BOOL", schemalex.BOOL},
	{"BOOLEAN", schemalex.BOOLEAN},
	{"BTREE", schemalex.BTREE},
	{"CASCADE", schemalex.CASCADE},
	{"CHAR", schemalex.CHAR},
	{"CHARACTER", schemalex.CHARACTER},
	{"CHARSET", schemalex.CHARSET},
	{"CHECK", schemalex.CHECK},
	{"CHECKSUM", schemalex.CHECKSUM},
	{"COLLATE", schemalex.COLLATE},
	{"COMMENT", schemalex.COMMENT},
	{"COMPACT", schemalex.COMPACT},
	{"COMPRESSED", schemalex.COMPRESSED},
	{"CONNECTION", schemalex.CONNECTION},
	{"CONSTRAINT", schemalex.CONSTRAINT},
	{"CREATE", schemalex.CREATE},
	{"CURRENT_TIMESTAMP", schemalex.CURRENT_TIMESTAMP},
	{"DATA", schemalex.DATA},
	{"DATABASE", schemalex.DATABASE},
	{"DATE", schemalex.DATE},
	{"DATETIME", schemalex.DATETIME},
	{"DECIMAL", schemalex.DECIMAL},
	{"DEFAULT", schemalex.DEFAULT},
	{"DELAY_KEY_WRITE", schemalex.DELAY_KEY_WRITE},
	{"DELETE", schemalex.DELETE},
	{"DIRECTORY", schemalex.DIRECTORY},
	{"DISK", schemalex.DISK},
	{"DOUBLE", schemalex.DOUBLE},
	{"DROP", schemalex.DROP},
	{"DYNAMIC", schemalex.DYNAMIC},
	{"ENGINE", schemalex.ENGINE},
	{"ENUM", schemalex.ENUM},
	{"EXISTS", schemalex.EXISTS},
	{"FALSE", schemalex.FALSE},
	{"FIRST", schemalex.FIRST},
	{"FIXED", schemalex.FIXED},
	{"FLOAT", schemalex.FLOAT},
	{"FOREIGN", schemalex.FOREIGN},
	{"FULL", schemalex.FULL},
	{"FULLTEXT", schemalex.FULLTEXT},
	{"GEOMETRY", schemalex.GEOMETRY},
	{"HASH", schemalex.HASH},
	{"IF", schemalex.IF},
	{"INDEX", schemalex.INDEX},
	{"INSERT_METHOD", schemalex.INSERT_METHOD},
	{"INT", schemalex.INT},
	{"INTEGER", schemalex.INTEGER},
	{"JSON", schemalex.JSON},
	{"KEY", schemalex.KEY},
	{"KEY_BLOCK_SIZE", schemalex.KEY_BLOCK_SIZE},
	{"LAST", schemalex.LAST},
	{"LIKE", schemalex.LIKE},
	{"LONGBLOB", schemalex.LONGBLOB},
	{"LONGTEXT", schemalex.LONGTEXT},
	{"MATCH", schemalex.MATCH},
	{"MAX_ROWS", schemalex.MAX_ROWS},
	{"MEDIUMBLOB", schemalex.MEDIUMBLOB},
	{"MEDIUMINT", schemalex.MEDIUMINT},
	{"MEDIUMTEXT", schemalex.MEDIUMTEXT},
	{"MEMORY", schemalex.MEMORY},
	{"MIN_ROWS", schemalex.MIN_ROWS},
	{"NO", schemalex.NO},
	{"NOT", schemalex.NOT},
	{"NULL", schemalex.NULL},
	{"NUMERIC", schemalex.NUMERIC},
	{"ON", schemalex.ON},
	{"PACK_KEYS", schemalex.PACK_KEYS},
	{"PARTIAL", schemalex.PARTIAL},
	{"PARSER", schemalex.PARSER},
	{"PASSWORD", schemalex.PASSWORD},
	{"PRIMARY", schemalex.PRIMARY},
	{"REAL", schemalex.REAL},
	{"REDUNDANT", schemalex.REDUNDANT},
	{"REFERENCES", schemalex.REFERENCES},
	{"RESTRICT", schemalex.RESTRICT},
	{"ROW_FORMAT", schemalex.ROW_FORMAT},
	{"SET", schemalex.SET},
	{"SIMPLE", schemalex.SIMPLE},
	{"SMALLINT", schemalex.SMALLINT},
	{"SPATIAL", schemalex.SPATIAL},
	{"STATS_AUTO_RECALC", schemalex.STATS_AUTO_RECALC},
	{"STATS_PERSISTENT", schemalex.STATS_PERSISTENT},
	{"STATS_SAMPLE_PAGES", schemalex.STATS_SAMPLE_PAGES},
	{"STORAGE", schemalex.STORAGE},
	{"TABLE", schemalex.TABLE},
	{"TABLESPACE", schemalex.TABLESPACE},
	{"TEMPORARY", schemalex.TEMPORARY},
	{"TEXT", schemalex.TEXT},
	{"TIME", schemalex.TIME},
	{"TIMESTAMP", schemalex.TIMESTAMP},
	{"TINYBLOB", schemalex.TINYBLOB},
	{"TINYINT", schemalex.TINYINT},
	{"TINYTEXT", schemalex.TINYTEXT},
	{"TRUE", schemalex.TRUE},
	{"UNION", schemalex.UNION},
	{"UNIQUE", schemalex.UNIQUE},
	{"UNSIGNED", schemalex.UNSIGNED},
	{"UPDATE", schemalex.UPDATE},
	{"USE", schemalex.USE},
	{"USING", schemalex.USING},
	{"VARBINARY", schemalex.VARBINARY},
	{"VARCHAR", schemalex.VARCHAR},
	{"YEAR", schemalex.YEAR},
	{"WITH", schemalex.WITH},
	{"ZEROFILL", schemalex.ZEROFILL},
	{"ASC", schemalex.ASC},
	{"DESC", schemalex.DESC},
	{"NOW", schemalex.NOW},
}
