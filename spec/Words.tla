------------------------------- MODULE Words -------------------------------
(* Vocabulary of the language: the built-in functions with the function each *)
(* spelling denotes, the reserved words, and the remaining keywords (which   *)
(* may be used as names).                                                    *)
EXTENDS Sequences

(* <<spelling, function>>; several spellings may denote the same function *)
FunctionTable == <<
    <<"ASCII", "Ascii">>, <<"BIN", "Bin">>, <<"BIT_LENGTH", "BitLength">>,
    <<"CHAR_LENGTH", "CharacterLength">>,
    <<"CHARACTER_LENGTH", "CharacterLength">>, <<"CHR", "Chr">>,
    <<"CONCAT", "Concat">>, <<"CONCAT_WS", "ConcatWs">>, <<"ELT", "Elt">>,
    <<"EXPORT_SET", "ExportSet">>, <<"EXTRACTVALUE", "ExtractValue">>,
    <<"FIELD", "Field">>, <<"FIND_IN_SET", "FindInSet">>,
    <<"FORMAT", "Format">>, <<"FROM_BASE64", "FromBase64">>,
    <<"HEX", "Hex">>, <<"INSERT", "Insert">>, <<"INSTR", "InStr">>,
    <<"LCASE", "LCase">>, <<"LEFT", "Left">>, <<"LENGTH", "Length">>,
    <<"LENGTHB", "LengthB">>, <<"LOAD_FILE", "LoadFile">>,
    <<"LOCATE", "Locate">>, <<"LOWER", "Lower">>, <<"LPAD", "LPad">>,
    <<"LTRIM", "LTrim">>, <<"MAKE_SET", "MakeSet">>, <<"MID", "Mid">>,
    <<"NATURAL_SORT_KEY", "NaturalSortkey">>,
    <<"OCTET_LENGTH", "OctetLength">>, <<"ORD", "Ord">>,
    <<"POSITION", "Position">>, <<"QUOTE", "Quote">>, <<"REPEAT", "Repeat">>,
    <<"REPLACE", "Replace">>, <<"REVERSE", "Reverse">>, <<"RIGHT", "Right">>,
    <<"RPAD", "RPad">>, <<"RTRIM", "RTrim">>, <<"SOUNDEX", "SoundEx">>,
    <<"SPACE", "Space">>, <<"STRCMP", "StrCmp">>, <<"SUBSTR", "SubStr">>,
    <<"SUBSTRING", "SubStr">>, <<"SUBSTRING_INDEX", "SubStringIndex">>,
    <<"TO_BASE64", "ToBase64">>, <<"TO_CHAR", "ToChar">>,
    <<"UCASE", "UCase">>, <<"UNCOMPRESSED_LENGTH", "UncompressedLength">>,
    <<"UNHEX", "UnHex">>, <<"UPDATEXML", "UpdateXml">>, <<"UPPER", "Upper">>,
    <<"SFORMAT", "SFormat">>, <<"MIN", "Min">>, <<"MAX", "Max">>,
    <<"SUM", "Sum">>, <<"VALUE", "Value">>, <<"VALUES", "Value">>,
    <<"LEAD", "Lead">>, <<"LAG", "Lag">>, <<"STARTS_WITH", "StartsWith">>,
    <<"IFNULL", "IfNull">>, <<"NULLIF", "NullIf">>, <<"NVL", "IfNull">>,
    <<"NVL2", "NVL2">>, <<"IF", "If">>, <<"ABS", "Abs">>, <<"ACOS", "Acos">>,
    <<"ASIN", "Asin">>, <<"ATAN", "Atan">>, <<"ATAN2", "Atan2">>,
    <<"CEIL", "Ceil">>, <<"CEILING", "Ceil">>, <<"CONV", "Conv">>,
    <<"COS", "Cos">>, <<"COT", "Cot">>, <<"CRC32", "Crc32">>,
    <<"DEGREES", "Degrees">>, <<"EXP", "Exp">>, <<"FLOOR", "Floor">>,
    <<"GREATEST", "Greatest">>, <<"LN", "Ln">>, <<"LOG", "Log">>,
    <<"LOG10", "Log10">>, <<"LOG2", "Log2">>, <<"OCT", "Oct">>,
    <<"PI", "Pi">>, <<"POW", "Pow">>, <<"POWER", "Pow">>,
    <<"RADIANS", "Radians">>, <<"RAND", "Rand">>, <<"ROUND", "Round">>,
    <<"SIGN", "Sign">>, <<"SIN", "Sin">>, <<"SQRT", "Sqrt">>,
    <<"TAN", "Tan">>, <<"TRUNCATE", "Truncate">>, <<"CRC32C", "Crc32c">>,
    <<"LEAST", "Least">>, <<"ADDDATE", "AddDate">>, <<"ADDTIME", "AddTime">>,
    <<"CONVERT_TZ", "ConvertTz">>, <<"CURDATE", "CurDate">>,
    <<"CURRENT_DATE", "CurDate">>, <<"CURRENT_TIME", "CurTime">>,
    <<"CURTIME", "CurTime">>, <<"DATE", "Date">>, <<"HOUR", "Hour">>,
    <<"DATEDIFF", "DateDiff">>, <<"DATE_ADD", "AddDate">>,
    <<"DATE_FORMAT", "DateFormat">>, <<"DATE_SUB", "DateSub">>,
    <<"DAY", "DayOfMonth">>, <<"DAYOFMONTH", "DayOfMonth">>,
    <<"DAYNAME", "DayName">>, <<"DAYOFWEEK", "DayOfWeek">>,
    <<"DAYOFYEAR", "DayOfYear">>, <<"FROM_DAYS", "FromDays">>,
    <<"CURRENT_TIMESTAMP", "CurrentTimestamp">>, <<"LOCALTIME", "Now">>,
    <<"LOCALTIMESTAMP", "Now">>, <<"NOW", "Now">>,
    <<"MAKEDATE", "MakeDate">>, <<"MAKETIME", "MakeTime">>,
    <<"MICROSECOND", "MicroSecond">>, <<"MINUTE", "Minute">>,
    <<"MONTH", "Month">>, <<"MONTHNAME", "MonthName">>,
    <<"PERIOD_ADD", "PeriodAdd">>, <<"PERIOD_DIFF", "PeriodDiff">>,
    <<"QUARTER", "Quarter">>, <<"SECOND", "Second">>,
    <<"SEC_TO_TIME", "SecToTime">>, <<"STR_TO_DATE", "StrToDate">>,
    <<"SUBDATE", "DateSub">>, <<"SUBTIME", "SubTime">>, <<"TIME", "Time">>,
    <<"LAST_DAY", "LastDay">>, <<"TIMEDIFF", "TimeDiff">>,
    <<"TIMESTAMP", "Timestamp">>, <<"TIME_FORMAT", "TimeFormat">>,
    <<"TIME_TO_SEC", "TimeToSec">>, <<"TO_DAYS", "ToDays">>,
    <<"TO_SECONDS", "ToSeconds">>, <<"UNIX_TIMESTAMP", "UnixTimestamp">>,
    <<"UTC_DATE", "UtcDate">>, <<"UTC_TIME", "UtcTime">>,
    <<"UTC_TIMESTAMP", "UtcTimeStamp">>, <<"WEEK", "Week">>,
    <<"WEEKDAY", "Weekday">>, <<"WEEKOFYEAR", "WeekOfYear">>,
    <<"ADD_MONTHS", "AddMonths">>, <<"FROM_UNIXTIME", "FromUnixTime">>,
    <<"YEAR", "Year">>, <<"YEARWEEK", "YearWeek">>, <<"SYSDATE", "SysDate">>,
    <<"JSON_ARRAY", "JsonArray">>, <<"JSON_ARRAYAGG", "JsonArrayAgg">>,
    <<"JSON_ARRAY_APPEND", "JsonArrayAppend">>,
    <<"JSON_ARRAY_INSERT", "JsonArrayInsert">>,
    <<"JSON_ARRAY_INTERSECT", "JsonArrayIntersect">>,
    <<"JSON_COMPACT", "JsonCompact">>, <<"JSON_CONTAINS", "JsonContains">>,
    <<"JSON_CONTAINS_PATH", "JsonContainsPath">>,
    <<"JSON_DEPTH", "JsonDepth">>, <<"JSON_DETAILED", "JsonDetailed">>,
    <<"JSON_EQUALS", "JsonEquals">>, <<"JSON_EXISTS", "JsonExists">>,
    <<"JSON_EXTRACT", "JsonExtract">>, <<"JSON_INSERT", "JsonInsert">>,
    <<"JSON_KEYS", "JsonKeys">>, <<"JSON_LENGTH", "JsonLength">>,
    <<"JSON_LOOSE", "JsonLoose">>, <<"JSON_MERGE", "JsonMerge">>,
    <<"JSON_MERGE_PATCH", "JsonMergePath">>,
    <<"JSON_MERGE_PRESERVE", "JsonMergePerserve">>,
    <<"JSON_NORMALIZE", "JsonNormalize">>, <<"JSON_OBJECT", "JsonObject">>,
    <<"JSON_OBJECT_FILTER_KEYS", "JsonObjectFilterKeys">>,
    <<"JSON_OBJECT_TO_ARRAY", "JsonObjectToArray">>,
    <<"JSON_OBJECTAGG", "JsonObjectAgg">>,
    <<"JSON_OVERLAPS", "JsonOverlaps">>, <<"JSON_PRETTY", "JsonPretty">>,
    <<"JSON_QUERY", "JsonQuery">>, <<"JSON_QUOTE", "JsonQuote">>,
    <<"JSON_REMOVE", "JsonRemove">>, <<"JSON_REPLACE", "JsonReplace">>,
    <<"JSON_SCHEMA_VALID", "JsonSchemaValid">>,
    <<"JSON_SEARCH", "JsonSearch">>, <<"JSON_SET", "JsonSet">>,
    <<"JSON_TABLE", "JsonTable">>, <<"JSON_TYPE", "JsonType">>,
    <<"JSON_UNQUOTE", "JsonUnquote">>, <<"JSON_VALID", "JsonValid">>,
    <<"JSON_VALUE", "JsonValue">>, <<"STRFTIME", "Strftime">>,
    <<"DATETIME", "Datetime">>
>>

Reserved == <<
    "ACCESSIBLE", "ADD", "ALL", "ALTER", "ANALYZE", "AND", "AS", "ASC",
    "ASENSITIVE", "BEFORE", "BETWEEN", "BIGINT", "BINARY", "BLOB", "BOTH",
    "BY", "CALL", "CASCADE", "CASE", "CHANGE", "CHAR", "CHARACTER", "CHECK",
    "COLLATE", "COLUMN", "COMMENT", "CONDITION", "CONSTRAINT", "CONTINUE",
    "CONVERT", "CREATE", "CROSS", "CURRENT_DATE", "CURRENT_ROLE",
    "CURRENT_TIME", "CURRENT_TIMESTAMP", "CURRENT_USER", "CURSOR",
    "DATABASE", "DATABASES", "DAY_HOUR", "DAY_MICROSECOND", "DAY_MINUTE",
    "DAY_SECOND", "DEC", "DECIMAL", "DECLARE", "DEFAULT", "DELAYED",
    "DELETE", "DELETE_DOMAIN_ID", "DESC", "DESCRIBE", "DETERMINISTIC",
    "DISTINCT", "DISTINCTROW", "DIV", "DO_DOMAIN_IDS", "DOUBLE", "DROP",
    "DUAL", "EACH", "ELSE", "ELSEIF", "ENCLOSED", "END", "ESCAPED", "EXCEPT",
    "EXISTS", "EXIT", "EXPLAIN", "FALSE", "FETCH", "FLOAT", "FLOAT4",
    "FLOAT8", "FOR", "FORCE", "FOREIGN", "FROM", "FULLTEXT", "GENERAL",
    "GRANT", "GROUP", "HAVING", "HIGH_PRIORITY", "HOUR_MICROSECOND",
    "HOUR_MINUTE", "HOUR_SECOND", "IF", "IGNORE", "IGNORE_DOMAIN_IDS",
    "IGNORE_SERVER_IDS", "IN", "INDEX", "INFILE", "INNER", "INOUT",
    "INSENSITIVE", "INSERT", "INT", "INT1", "INT2", "INT3", "INT4", "INT8",
    "INTEGER", "INTERSECTA", "INTERVAL", "INTO", "IS", "ITERATE", "JOIN",
    "KEY", "KEYS", "KILL", "LEADING", "LEAVE", "LEFT", "LIKE", "LIMIT",
    "LINEAR", "LINES", "LOAD", "LOCALTIME", "LOCALTIMESTAMP", "LOCK", "LONG",
    "LONGBLOB", "LONGTEXT", "LOOP", "LOW_PRIORITY",
    "MASTER_HEARTBEAT_PERIOD", "MASTER_SSL_VERIFY_SERVER_CERT", "MATCH",
    "MAXVALUE", "MEDIUMBLOB", "MEDIUMINT", "MEDIUMTEXT", "MIDDLEINT",
    "MINUTE_MICROSECOND", "MINUTE_SECOND", "MOD", "MODIFIES", "NATURAL",
    "NO_WRITE_TO_BINLOG", "NOT", "NULL", "NUMERIC", "OFFSET", "ON",
    "OPTIMIZE", "OPTION", "OPTIONALLY", "OR", "ORDER", "OUT", "OUTER",
    "OUTFILE", "OVER", "PAGE_CHECKSUM", "PARSE_VCOL_EXPR", "PARTITION",
    "POSITION", "PRECISION", "PRIMARY", "PROCEDURE", "PURGE", "RANGE",
    "READ", "READ_WRITE", "READS", "REAL", "RECURSIVE", "REF_SYSTEM_ID",
    "REFERENCES", "REGEXP", "RENAME", "REPEAT", "REPLACE", "REQUIRE",
    "RESIGNAL", "RESTRICT", "RETURN", "RETURNING", "REVOKE", "RIGHT",
    "RLIKE", "ROWS", "SCHEMA", "SCHEMAS", "SECOND_MICROSECOND", "SELECT",
    "SENSITIVE", "SEPARATOR", "SET", "SHOW", "SIGNAL", "SLOW", "SMALLINT",
    "SPATIAL", "SPECIFIC", "SQL", "SQL_BIG_RESULT", "SQL_CALC_FOUND_ROWS",
    "SQL_SMALL_RESULT", "SQLEXCEPTION", "SQLSTATE", "SQLWARNING", "SSL",
    "STARTING", "STATS_AUTO_RECALC", "STATS_PERSISTENT",
    "STATS_SAMPLE_PAGES", "STRAIGHT_JOIN", "TABLE", "TERMINATED", "THEN",
    "TINYBLOB", "TINYINT", "TINYTEXT", "TO", "TRAILING", "TRIGGER", "TRUE",
    "UNDO", "UNION", "UNIQUE", "UNLOCK", "UNSIGNED", "UPDATE", "USAGE",
    "USE", "USING", "UTC_DATE", "UTC_TIME", "UTC_TIMESTAMP", "VALUES",
    "VARBINARY", "VARCHAR", "VARCHARACTER", "VARYING", "WHEN", "WHERE",
    "WHILE", "WINDOW", "WITH", "WRITE", "XOR", "YEAR_MONTH", "ZEROFILL"
>>

(* Reserved words that may nevertheless start an expression as a name. *)
ReservedExprNames == <<
    "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "IF", "LOCALTIME",
    "LOCALTIMESTAMP", "REPLACE", "UTC_DATE", "UTC_TIME", "UTC_TIMESTAMP",
    "VALUES"
>>

Unreserved == <<
    "ABS", "ACCOUNT", "ACOS", "ACTION", "ADD_MONTHS", "ADDDATE", "ADDTIME",
    "ADMIN", "AFTER", "AGAINST", "AGGREGATE", "ALGORITHM", "ALWAYS", "ANY",
    "ASCII", "ASIN", "AT", "ATAN", "ATAN2", "ATOMIC", "AUTHORS", "AUTO",
    "AUTO_INCREMENT", "AUTOEXTEND_SIZE", "AVG", "AVG_ROW_LENGTH", "BACKUP",
    "BEGIN", "BIN", "BINLOG", "BIT", "BIT_LENGTH", "BLOCK", "BODY", "BOOL",
    "BOOLEAN", "BPCHAR_PATTERN_OPS", "BTREE", "BYTE", "BYTEA", "CACHE",
    "CASCADED", "CAST", "CATALOG_NAME", "CEIL", "CEILING", "CHAIN",
    "CHANGED", "CHAR_LENGTH", "CHARACTER_LENGTH", "CHARSET", "CHECKPOINT",
    "CHECKSUM", "CHR", "CIPHER", "CLASS_ORIGIN", "CLIENT", "CLOB", "CLOSE",
    "COALESCE", "CODE", "COLLATION", "COLUMN_ADD", "COLUMN_CHECK",
    "COLUMN_CREATE", "COLUMN_DELETE", "COLUMN_GET", "COLUMN_NAME", "COLUMNS",
    "COMMIT", "COMMITTED", "COMPACT", "COMPLETION", "COMPRESSED", "CONCAT",
    "CONCAT_WS", "CONCURRENT", "CONFLICT", "CONNECTION", "CONSISTENT",
    "CONSTRAINT_CATALOG", "CONSTRAINT_NAME", "CONSTRAINT_SCHEMA", "CONTAINS",
    "CONTEXT", "CONTRIBUTORS", "CONV", "CONVERT_TZ", "COPY", "COS", "COT",
    "COUNT", "CPU", "CRC32", "CRC32C", "CUBE", "CURDATE", "CURRENT",
    "CURRENT_POS", "CURSOR_NAME", "CURTIME", "CYCLE", "DATA", "DATAFILE",
    "DATE", "DATE_ADD", "DATE_FORMAT", "DATE_SUB", "DATEDIFF", "DATETIME",
    "DAY", "DAYNAME", "DAYOFMONTH", "DAYOFWEEK", "DAYOFYEAR", "DEALLOCATE",
    "DEFINER", "DEGREES", "DELAY_KEY_WRITE", "DELIMITER", "DES_KEY_FILE",
    "DIAGNOSTICS", "DIRECTORY", "DISABLE", "DISCARD", "DISK", "DO",
    "DUMPFILE", "DUPLICATE", "DYNAMIC", "ELSIF", "ELT", "EMPTY", "ENABLE",
    "ENDS", "ENGINE", "ENGINES", "ENUM", "ERROR", "ERRORS", "ESCAPE",
    "EVENT", "EVENTS", "EVERY", "EXAMINED", "EXCEPTION", "EXCHANGE",
    "EXCLUDE", "EXECUTE", "EXP", "EXPANSION", "EXPIRE", "EXPORT",
    "EXPORT_SET", "EXTENDED", "EXTENT_SIZE", "EXTRACT", "EXTRACTVALUE",
    "FAST", "FAULTS", "FEDERATED", "FIELD", "FIELDS", "FILE", "FIND_IN_SET",
    "FIRST", "FIXED", "FLOOR", "FLUSH", "FOLLOWING", "FOLLOWS", "FORMAT",
    "FOUND", "FROM_BASE64", "FROM_DAYS", "FROM_UNIXTIME", "FULL", "FUNCTION",
    "GENERATED", "GET", "GET_FORMAT", "GIST", "GLOBAL", "GOTO", "GRANTS",
    "GREATEST", "GROUP_CONCAT", "HANDLER", "HARD", "HASH", "HELP", "HEX",
    "HISTORY", "HOST", "HOSTS", "HOUR", "ID", "IDENTIFIED", "IDENTITY",
    "IFNULL", "IGNORED", "IMMEDIATE", "IMPORT", "INCREMENT", "INDEXES",
    "INET4", "INET6", "INITIAL_SIZE", "INSERT_METHOD", "INSTALL", "INSTR",
    "INT2_OPS", "INT4_OPS", "INT8_OPS", "INTERSECT", "INVISIBLE", "INVOKER",
    "IO", "IO_THREAD", "IPC", "ISOLATION", "ISOPEN", "ISSUER", "JSON",
    "JSON_ARRAY", "JSON_ARRAY_APPEND", "JSON_ARRAY_INSERT",
    "JSON_ARRAY_INTERSECT", "JSON_ARRAYAGG", "JSON_COMPACT", "JSON_CONTAINS",
    "JSON_CONTAINS_PATH", "JSON_DEPTH", "JSON_DETAILED", "JSON_EQUALS",
    "JSON_EXISTS", "JSON_EXTRACT", "JSON_INSERT", "JSON_KEYS", "JSON_LENGTH",
    "JSON_LOOSE", "JSON_MERGE", "JSON_MERGE_PATCH", "JSON_MERGE_PRESERVE",
    "JSON_NORMALIZE", "JSON_OBJECT", "JSON_OBJECT_FILTER_KEYS",
    "JSON_OBJECT_TO_ARRAY", "JSON_OBJECTAGG", "JSON_OVERLAPS", "JSON_PRETTY",
    "JSON_QUERY", "JSON_QUOTE", "JSON_REMOVE", "JSON_REPLACE",
    "JSON_SCHEMA_VALID", "JSON_SEARCH", "JSON_SET", "JSON_TABLE",
    "JSON_TYPE", "JSON_UNQUOTE", "JSON_VALID", "JSON_VALUE",
    "KEY_BLOCK_SIZE", "LAG", "LANGUAGE", "LAST", "LAST_DAY", "LAST_VALUE",
    "LASTVAL", "LCASE", "LEAD", "LEAST", "LEAVES", "LENGTH", "LENGTHB",
    "LESS", "LEVEL", "LIST", "LN", "LOAD_FILE", "LOCAL", "LOCATE", "LOCKED",
    "LOCKS", "LOG", "LOG10", "LOG2", "LOGFILE", "LOGS", "LOWER", "LPAD",
    "LTRIM", "MAKE_SET", "MAKEDATE", "MAKETIME", "MASTER",
    "MASTER_CONNECT_RETRY", "MASTER_DELAY", "MASTER_GTID_POS", "MASTER_HOST",
    "MASTER_LOG_FILE", "MASTER_LOG_POS", "MASTER_PASSWORD", "MASTER_PORT",
    "MASTER_SERVER_ID", "MASTER_SSL", "MASTER_SSL_CA", "MASTER_SSL_CAPATH",
    "MASTER_SSL_CERT", "MASTER_SSL_CIPHER", "MASTER_SSL_CRL",
    "MASTER_SSL_CRLPATH", "MASTER_SSL_KEY", "MASTER_USE_GTID", "MASTER_USER",
    "MAX", "MAX_CONNECTIONS_PER_HOUR", "MAX_QUERIES_PER_HOUR", "MAX_ROWS",
    "MAX_SIZE", "MAX_STATEMENT_TIME", "MAX_UPDATES_PER_HOUR",
    "MAX_USER_CONNECTIONS", "MEDIUM", "MEMORY", "MERGE", "MESSAGE_TEXT",
    "MICROSECOND", "MID", "MIGRATE", "MIN", "MIN_ROWS", "MINUS", "MINUTE",
    "MINVALUE", "MODE", "MODIFY", "MONITOR", "MONTH", "MONTHNAME", "MUTEX",
    "MYSQL", "MYSQL_ERRNO", "NAME", "NAMES", "NATIONAL", "NATURAL_SORT_KEY",
    "NCHAR", "NESTED", "NEVER", "NEW", "NEXT", "NEXTVAL", "NO", "NO_WAIT",
    "NOCACHE", "NOCYCLE", "NODEGROUP", "NOMAXVALUE", "NOMINVALUE", "NONE",
    "NOTFOUND", "NOTHING", "NOTICE", "NOW", "NOWAIT", "NULLIF", "NUMBER",
    "NVARCHAR", "NVL", "NVL2", "OCT", "OCTET_LENGTH", "OF", "OLD_PASSWORD",
    "ONE", "ONLINE", "ONLY", "OPEN", "OPTIONS", "ORD", "ORDINALITY",
    "OTHERS", "OVERLAPS", "OWNER", "PACK_KEYS", "PACKAGE", "PAGE", "PARSER",
    "PARTIAL", "PARTITIONING", "PARTITIONS", "PASSWORD", "PATH", "PERIOD",
    "PERIOD_ADD", "PERIOD_DIFF", "PERSISTENT", "PHASE", "PI", "PLPGSQL",
    "PLUGIN", "PLUGINS", "PORT", "PORTION", "POW", "POWER", "PRECEDES",
    "PRECEDING", "PREPARE", "PRESERVE", "PREV", "PREVIOUS", "PRIVILEGES",
    "PROCESS", "PROCESSLIST", "PROFILE", "PROFILES", "PROXY", "QUARTER",
    "QUERY", "QUICK", "QUOTE", "RADIANS", "RAISE", "RAND", "RAW",
    "READ_ONLY", "REBUILD", "RECOVER", "REDO_BUFFER_SIZE", "REDOFILE",
    "REDUNDANT", "RELAY", "RELAY_LOG_FILE", "RELAY_LOG_POS", "RELAY_THREAD",
    "RELAYLOG", "RELEASE", "RELOAD", "REMOVE", "REORGANIZE", "REPAIR",
    "REPEATABLE", "REPLAY", "REPLICA", "REPLICA_POS", "REPLICAS",
    "REPLICATION", "RESET", "RESTART", "RESTORE", "RESUME",
    "RETURNED_SQLSTATE", "RETURNS", "REUSE", "REVERSE", "ROLE", "ROLLBACK",
    "ROLLUP", "ROUND", "ROUTINE", "ROW", "ROW_COUNT", "ROW_FORMAT",
    "ROWCOUNT", "ROWNUM", "ROWTYPE", "RPAD", "RTREE", "RTRIM", "SAVEPOINT",
    "SCHEDULE", "SCHEMA_NAME", "SEC_TO_TIME", "SECOND", "SECURITY",
    "SEQUENCE", "SERIAL", "SERIALIZABLE", "SERVER", "SESSION", "SETVAL",
    "SFORMAT", "SHARE", "SHUTDOWN", "SIGN", "SIGNED", "SIMPLE", "SIN",
    "SKIP", "SLAVE", "SLAVE_POS", "SLAVES", "SNAPSHOT", "SOCKET", "SOFT",
    "SOME", "SONAME", "SOUNDEX", "SOUNDS", "SOURCE", "SPACE",
    "SQL_BUFFER_RESULT", "SQL_CACHE", "SQL_NO_CACHE", "SQL_THREAD",
    "SQL_TSI_DAY", "SQL_TSI_HOUR", "SQL_TSI_MINUTE", "SQL_TSI_MONTH",
    "SQL_TSI_QUARTER", "SQL_TSI_SECOND", "SQL_TSI_WEEK", "SQL_TSI_YEAR",
    "SQRT", "STAGE", "START", "STARTS", "STARTS_WITH", "STATEMENT", "STATUS",
    "STDIN", "STOP", "STORAGE", "STORED", "STR_TO_DATE", "STRCMP",
    "STRFTIME", "STRICT", "STRING", "SUBCLASS_ORIGIN", "SUBDATE", "SUBJECT",
    "SUBPARTITION", "SUBPARTITIONS", "SUBSTR", "SUBSTRING",
    "SUBSTRING_INDEX", "SUBTIME", "SUM", "SUPER", "SUSPEND", "SWAPS",
    "SWITCHES", "SYSDATE", "SYSTEM", "SYSTEM_TIME", "TABLE_CHECKSUM",
    "TABLE_NAME", "TABLES", "TABLESPACE", "TAN", "TEMPORARY", "TEMPTABLE",
    "TEXT", "TEXT_PATTERN_OPS", "THAN", "THREADS", "TIES", "TIME",
    "TIME_FORMAT", "TIME_TO_SEC", "TIME_ZONE", "TIMEDIFF", "TIMESTAMP",
    "TIMESTAMPADD", "TIMESTAMPDIFF", "TIMESTAMPTZ", "TO_BASE64", "TO_CHAR",
    "TO_DAYS", "TO_SECONDS", "TRANSACTION", "TRANSACTIONAL", "TRIGGERS",
    "TRUNCATE", "TYPE", "TYPES", "UCASE", "UNBOUNDED", "UNCOMMITTED",
    "UNCOMPRESSED_LENGTH", "UNDEFINED", "UNDO_BUFFER_SIZE", "UNDOFILE",
    "UNHEX", "UNICODE", "UNINSTALL", "UNIX_TIMESTAMP", "UNKNOWN", "UNTIL",
    "UPDATEXML", "UPGRADE", "UPPER", "USE_FRM", "USER", "USER_RESOURCES",
    "VALUE", "VARCHAR_PATTERN_OPS", "VARCHAR2", "VARIABLES", "VERSIONING",
    "VIA", "VIEW", "VIRTUAL", "VISIBLE", "WAIT", "WARNINGS", "WEEK",
    "WEEKDAY", "WEEKOFYEAR", "WEIGHT_STRING", "WITHIN", "WITHOUT", "WORK",
    "WRAPPER", "X509", "XA", "XML", "YEAR", "YEARWEEK", "ZONE"
>>
=============================================================================
