//! Built-in function names and the functions they denote.

pub const FUNCS: &[(&str, &str)] = &[
    ("ABS", "Abs"),
    ("ACOS", "Acos"),
    ("ADDDATE", "AddDate"),
    ("ADDTIME", "AddTime"),
    ("ADD_MONTHS", "AddMonths"),
    ("ASCII", "Ascii"),
    ("ASIN", "Asin"),
    ("ATAN", "Atan"),
    ("ATAN2", "Atan2"),
    ("BIN", "Bin"),
    ("BIT_LENGTH", "BitLength"),
    ("CEIL", "Ceil"),
    ("CEILING", "Ceil"),
    ("CHARACTER_LENGTH", "CharacterLength"),
    ("CHAR_LENGTH", "CharacterLength"),
    ("CHR", "Chr"),
    ("CONCAT", "Concat"),
    ("CONCAT_WS", "ConcatWs"),
    ("CONV", "Conv"),
    ("CONVERT_TZ", "ConvertTz"),
    ("COS", "Cos"),
    ("COT", "Cot"),
    ("CRC32", "Crc32"),
    ("CRC32C", "Crc32c"),
    ("CURDATE", "CurDate"),
    ("CURRENT_DATE", "CurDate"),
    ("CURRENT_TIME", "CurTime"),
    ("CURRENT_TIMESTAMP", "CurrentTimestamp"),
    ("CURTIME", "CurTime"),
    ("DATE", "Date"),
    ("DATEDIFF", "DateDiff"),
    ("DATETIME", "Datetime"),
    ("DATE_ADD", "AddDate"),
    ("DATE_FORMAT", "DateFormat"),
    ("DATE_SUB", "DateSub"),
    ("DAY", "DayOfMonth"),
    ("DAYNAME", "DayName"),
    ("DAYOFMONTH", "DayOfMonth"),
    ("DAYOFWEEK", "DayOfWeek"),
    ("DAYOFYEAR", "DayOfYear"),
    ("DEGREES", "Degrees"),
    ("ELT", "Elt"),
    ("EXP", "Exp"),
    ("EXPORT_SET", "ExportSet"),
    ("EXTRACTVALUE", "ExtractValue"),
    ("FIELD", "Field"),
    ("FIND_IN_SET", "FindInSet"),
    ("FLOOR", "Floor"),
    ("FORMAT", "Format"),
    ("FROM_BASE64", "FromBase64"),
    ("FROM_DAYS", "FromDays"),
    ("FROM_UNIXTIME", "FromUnixTime"),
    ("GREATEST", "Greatest"),
    ("HEX", "Hex"),
    ("HOUR", "Hour"),
    ("IF", "If"),
    ("IFNULL", "IfNull"),
    ("INSERT", "Insert"),
    ("INSTR", "InStr"),
    ("JSON_ARRAY", "JsonArray"),
    ("JSON_ARRAYAGG", "JsonArrayAgg"),
    ("JSON_ARRAY_APPEND", "JsonArrayAppend"),
    ("JSON_ARRAY_INSERT", "JsonArrayInsert"),
    ("JSON_ARRAY_INTERSECT", "JsonArrayIntersect"),
    ("JSON_COMPACT", "JsonCompact"),
    ("JSON_CONTAINS", "JsonContains"),
    ("JSON_CONTAINS_PATH", "JsonContainsPath"),
    ("JSON_DEPTH", "JsonDepth"),
    ("JSON_DETAILED", "JsonDetailed"),
    ("JSON_EQUALS", "JsonEquals"),
    ("JSON_EXISTS", "JsonExists"),
    ("JSON_EXTRACT", "JsonExtract"),
    ("JSON_INSERT", "JsonInsert"),
    ("JSON_KEYS", "JsonKeys"),
    ("JSON_LENGTH", "JsonLength"),
    ("JSON_LOOSE", "JsonLoose"),
    ("JSON_MERGE", "JsonMerge"),
    ("JSON_MERGE_PATCH", "JsonMergePath"),
    ("JSON_MERGE_PRESERVE", "JsonMergePerserve"),
    ("JSON_NORMALIZE", "JsonNormalize"),
    ("JSON_OBJECT", "JsonObject"),
    ("JSON_OBJECTAGG", "JsonObjectAgg"),
    ("JSON_OBJECT_FILTER_KEYS", "JsonObjectFilterKeys"),
    ("JSON_OBJECT_TO_ARRAY", "JsonObjectToArray"),
    ("JSON_OVERLAPS", "JsonOverlaps"),
    ("JSON_PRETTY", "JsonPretty"),
    ("JSON_QUERY", "JsonQuery"),
    ("JSON_QUOTE", "JsonQuote"),
    ("JSON_REMOVE", "JsonRemove"),
    ("JSON_REPLACE", "JsonReplace"),
    ("JSON_SCHEMA_VALID", "JsonSchemaValid"),
    ("JSON_SEARCH", "JsonSearch"),
    ("JSON_SET", "JsonSet"),
    ("JSON_TABLE", "JsonTable"),
    ("JSON_TYPE", "JsonType"),
    ("JSON_UNQUOTE", "JsonUnquote"),
    ("JSON_VALID", "JsonValid"),
    ("JSON_VALUE", "JsonValue"),
    ("LAG", "Lag"),
    ("LAST_DAY", "LastDay"),
    ("LCASE", "LCase"),
    ("LEAD", "Lead"),
    ("LEAST", "Least"),
    ("LEFT", "Left"),
    ("LENGTH", "Length"),
    ("LENGTHB", "LengthB"),
    ("LN", "Ln"),
    ("LOAD_FILE", "LoadFile"),
    ("LOCALTIME", "Now"),
    ("LOCALTIMESTAMP", "Now"),
    ("LOCATE", "Locate"),
    ("LOG", "Log"),
    ("LOG10", "Log10"),
    ("LOG2", "Log2"),
    ("LOWER", "Lower"),
    ("LPAD", "LPad"),
    ("LTRIM", "LTrim"),
    ("MAKEDATE", "MakeDate"),
    ("MAKETIME", "MakeTime"),
    ("MAKE_SET", "MakeSet"),
    ("MAX", "Max"),
    ("MICROSECOND", "MicroSecond"),
    ("MID", "Mid"),
    ("MIN", "Min"),
    ("MINUTE", "Minute"),
    ("MONTH", "Month"),
    ("MONTHNAME", "MonthName"),
    ("NATURAL_SORT_KEY", "NaturalSortkey"),
    ("NOW", "Now"),
    ("NULLIF", "NullIf"),
    ("NVL", "IfNull"),
    ("NVL2", "NVL2"),
    ("OCT", "Oct"),
    ("OCTET_LENGTH", "OctetLength"),
    ("ORD", "Ord"),
    ("PERIOD_ADD", "PeriodAdd"),
    ("PERIOD_DIFF", "PeriodDiff"),
    ("PI", "Pi"),
    ("POW", "Pow"),
    ("POWER", "Pow"),
    ("QUARTER", "Quarter"),
    ("QUOTE", "Quote"),
    ("RADIANS", "Radians"),
    ("RAND", "Rand"),
    ("REPEAT", "Repeat"),
    ("REPLACE", "Replace"),
    ("REVERSE", "Reverse"),
    ("RIGHT", "Right"),
    ("ROUND", "Round"),
    ("RPAD", "RPad"),
    ("RTRIM", "RTrim"),
    ("SECOND", "Second"),
    ("SEC_TO_TIME", "SecToTime"),
    ("SFORMAT", "SFormat"),
    ("SIGN", "Sign"),
    ("SIN", "Sin"),
    ("SOUNDEX", "SoundEx"),
    ("SPACE", "Space"),
    ("SQRT", "Sqrt"),
    ("STARTS_WITH", "StartsWith"),
    ("STRCMP", "StrCmp"),
    ("STRFTIME", "Strftime"),
    ("STR_TO_DATE", "StrToDate"),
    ("SUBDATE", "DateSub"),
    ("SUBSTR", "SubStr"),
    ("SUBSTRING", "SubStr"),
    ("SUBSTRING_INDEX", "SubStringIndex"),
    ("SUBTIME", "SubTime"),
    ("SUM", "Sum"),
    ("SYSDATE", "SysDate"),
    ("TAN", "Tan"),
    ("TIME", "Time"),
    ("TIMEDIFF", "TimeDiff"),
    ("TIMESTAMP", "Timestamp"),
    ("TIME_FORMAT", "TimeFormat"),
    ("TIME_TO_SEC", "TimeToSec"),
    ("TO_BASE64", "ToBase64"),
    ("TO_CHAR", "ToChar"),
    ("TO_DAYS", "ToDays"),
    ("TO_SECONDS", "ToSeconds"),
    ("TRUNCATE", "Truncate"),
    ("UCASE", "UCase"),
    ("UNCOMPRESSED_LENGTH", "UncompressedLength"),
    ("UNHEX", "UnHex"),
    ("UNIX_TIMESTAMP", "UnixTimestamp"),
    ("UPDATEXML", "UpdateXml"),
    ("UPPER", "Upper"),
    ("UTC_DATE", "UtcDate"),
    ("UTC_TIME", "UtcTime"),
    ("UTC_TIMESTAMP", "UtcTimeStamp"),
    ("VALUE", "Value"),
    ("VALUES", "Value"),
    ("WEEK", "Week"),
    ("WEEKDAY", "Weekday"),
    ("WEEKOFYEAR", "WeekOfYear"),
    ("YEAR", "Year"),
    ("YEARWEEK", "YearWeek"),
];
