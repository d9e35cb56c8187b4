------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The numbers MySQL gives to collations and errors, and the names the     *)
(* package has for them.  The collations based on the Unicode collation    *)
(* algorithm come in series: the same languages, in the same order, for    *)
(* each character set.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Languages == <<
    <<"unicode", "Unicode">>, <<"icelandic", "Icelandic">>, <<"latvian", "Latvian">>,
    <<"romanian", "Romanian">>, <<"slovenian", "Slovenian">>, <<"polish", "Polish">>,
    <<"estonian", "Estonian">>, <<"spanish", "Spanish">>, <<"swedish", "Swedish">>, <<"turkish", "Turkish">>,
    <<"czech", "Czech">>, <<"danish", "Danish">>, <<"lithuanian", "Lithuanian">>, <<"slovak", "Slovak">>,
    <<"spanish2", "Spanish2">>, <<"roman", "Roman">>, <<"persian", "Persian">>, <<"esperanto", "Esperanto">>,
    <<"hungarian", "Hungarian">>, <<"sinhala", "Sinhala">>, <<"german2", "German2">>,
    <<"croatian", "Croatian">>, <<"unicode_520", "Unicode520">>, <<"vietnamese", "Vietnamese">>>>
Series == <<
    <<"utf16", "UTF16", 101>>, <<"ucs2", "UCS2", 128>>, <<"utf32", "UTF32", 160>>, <<"utf8", "UTF8", 192>>,
    <<"utf8mb4", "UTF8mb4", 224>>>>
InSeries == {[id |-> Series[s][3] + l - 1, name |-> Series[s][1] \o "_" \o Languages[l][1] \o "_ci",
              const |-> Series[s][2] \o Languages[l][2] \o "Ci"] : s \in 1..Len(Series), l \in 1..Len(Languages)}
Single == <<
    <<1, "big5_chinese_ci", "Big5ChineseCi">>, <<2, "latin2_czech_cs", "Latin2CzechCs">>,
    <<3, "dec8_swedish_ci", "Dec8SwedishCi">>, <<4, "cp850_general_ci", "Cp850GeneralCi">>,
    <<5, "latin1_german1_ci", "Latin1German1Ci">>, <<6, "hp8_english_ci", "Hp8EnglishCi">>,
    <<7, "koi8r_general_ci", "Koi8rGeneralCi">>, <<8, "latin1_swedish_ci", "Latin1SwedishCi">>,
    <<9, "latin2_general_ci", "Latin2GeneralCi">>, <<10, "swe7_swedish_ci", "Swe7SwedishCi">>,
    <<11, "ascii_general_ci", "ASCIIGeneralCi">>, <<12, "ujis_japanese_ci", "UjisJapaneseCi">>,
    <<13, "sjis_japanese_ci", "SjisJapaneseCi">>, <<14, "cp1251_bulgarian_ci", "Cp1251BulgarianCi">>,
    <<15, "latin1_danish_ci", "Latin1DanishCi">>, <<16, "hebrew_general_ci", "HebrewGeneralCi">>,
    <<18, "tis620_thai_ci", "Tis620ThaiCi">>, <<19, "euckr_korean_ci", "EuckrKoreanCi">>,
    <<20, "latin7_estonian_cs", "Latin7EstonianCs">>, <<21, "latin2_hungarian_ci", "Latin2HungarianCi">>,
    <<22, "koi8u_general_ci", "Koi8uGeneralCi">>, <<23, "cp1251_ukrainian_ci", "Cp1251UkrainianCi">>,
    <<24, "gb2312_chinese_ci", "Gb2312ChineseCi">>, <<25, "greek_general_ci", "GreekGeneralCi">>,
    <<26, "cp1250_general_ci", "Cp1250GeneralCi">>, <<27, "latin2_croatian_ci", "Latin2CroatianCi">>,
    <<28, "gbk_chinese_ci", "GbkChineseCi">>, <<29, "cp1257_lithuanian_ci", "Cp1257LithuanianCi">>,
    <<30, "latin5_turkish_ci", "Latin5TurkishCi">>, <<31, "latin1_german2_ci", "Latin1German2Ci">>,
    <<32, "armscii8_general_ci", "Armscii8GeneralCi">>, <<33, "utf8_general_ci", "UTF8GeneralCi">>,
    <<34, "cp1250_czech_cs", "Cp1250CzechCs">>, <<35, "ucs2_general_ci", "UCS2GeneralCi">>,
    <<36, "cp866_general_ci", "Cp866GeneralCi">>, <<37, "keybcs2_general_ci", "Keybcs2GeneralCi">>,
    <<38, "macce_general_ci", "MacceGeneralCi">>, <<39, "macroman_general_ci", "MacromanGeneralCi">>,
    <<40, "cp852_general_ci", "Cp852GeneralCi">>, <<41, "latin7_general_ci", "Latin7GeneralCi">>,
    <<42, "latin7_general_cs", "Latin7GeneralCs">>, <<43, "macce_bin", "MacceBin">>,
    <<44, "cp1250_croatian_ci", "Cp1250CroatianCi">>, <<45, "utf8mb4_general_ci", "UTF8mb4GeneralCi">>,
    <<46, "utf8mb4_bin", "UTF8mb4Bin">>, <<47, "latin1_bin", "Latin1Bin">>,
    <<48, "latin1_general_ci", "Latin1GeneralCi">>, <<49, "latin1_general_cs", "Latin1GeneralCs">>,
    <<50, "cp1251_bin", "Cp1251Bin">>, <<51, "cp1251_general_ci", "Cp1251GeneralCi">>,
    <<52, "cp1251_general_cs", "Cp1251GeneralCs">>, <<53, "macroman_bin", "MacromanBin">>,
    <<54, "utf16_general_ci", "UTF16GeneralCi">>, <<55, "utf16_bin", "UTF16Bin">>,
    <<56, "utf16le_general_ci", "UTF16leGeneralCi">>, <<57, "cp1256_general_ci", "Cp1256GeneralCi">>,
    <<58, "cp1257_bin", "Cp1257Bin">>, <<59, "cp1257_general_ci", "Cp1257GeneralCi">>,
    <<60, "utf32_general_ci", "UTF32GeneralCi">>, <<61, "utf32_bin", "UTF32Bin">>,
    <<62, "utf16le_bin", "UTF16leBin">>, <<63, "binary", "Binary">>, <<64, "armscii8_bin", "Armscii8Bin">>,
    <<65, "ascii_bin", "ASCIIBin">>, <<66, "cp1250_bin", "Cp1250Bin">>, <<67, "cp1256_bin", "Cp1256Bin">>,
    <<68, "cp866_bin", "Cp866Bin">>, <<69, "dec8_bin", "Dec8Bin">>, <<70, "greek_bin", "GreekBin">>,
    <<71, "hebrew_bin", "HebrewBin">>, <<72, "hp8_bin", "Hp8Bin">>, <<73, "keybcs2_bin", "Keybcs2Bin">>,
    <<74, "koi8r_bin", "Koi8rBin">>, <<75, "koi8u_bin", "Koi8uBin">>,
    <<76, "utf8_tolower_ci", "UTF8TolowerCi">>, <<77, "latin2_bin", "Latin2Bin">>,
    <<78, "latin5_bin", "Latin5Bin">>, <<79, "latin7_bin", "Latin7Bin">>, <<80, "cp850_bin", "Cp850Bin">>,
    <<81, "cp852_bin", "Cp852Bin">>, <<82, "swe7_bin", "Swe7Bin">>, <<83, "utf8_bin", "UTF8Bin">>,
    <<84, "big5_bin", "Big5Bin">>, <<85, "euckr_bin", "EuckrBin">>, <<86, "gb2312_bin", "Gb2312Bin">>,
    <<87, "gbk_bin", "GbkBin">>, <<88, "sjis_bin", "SjisBin">>, <<89, "tis620_bin", "Tis620Bin">>,
    <<90, "ucs2_bin", "UCS2Bin">>, <<91, "ujis_bin", "UjisBin">>,
    <<92, "geostd8_general_ci", "Geostd8GeneralCi">>, <<93, "geostd8_bin", "Geostd8Bin">>,
    <<94, "latin1_spanish_ci", "Latin1SpanishCi">>, <<95, "cp932_japanese_ci", "Cp932JapaneseCi">>,
    <<96, "cp932_bin", "Cp932Bin">>, <<97, "eucjpms_japanese_ci", "EucjpmsJapaneseCi">>,
    <<98, "eucjpms_bin", "EucjpmsBin">>, <<99, "cp1250_polish_ci", "Cp1250PolishCi">>,
    <<159, "ucs2_general_mysql500_ci", "UCS2GeneralMySQL500Ci">>,
    <<223, "utf8_general_mysql500_ci", "UTF8GeneralMySQL500Ci">>,
    <<248, "gb18030_chinese_ci", "Gb18030ChineseCi">>, <<249, "gb18030_bin", "Gb18030Bin">>,
    <<250, "gb18030_unicode_520_ci", "Gb18030Unicode520Ci">>,
    <<255, "utf8mb4_0900_ai_ci", "UTF8mb40900AiCi">>,
    <<256, "utf8mb4_de_pb_0900_ai_ci", "UTF8mb4DePb0900AiCi">>,
    <<257, "utf8mb4_is_0900_ai_ci", "UTF8mb4Is0900AiCi">>,
    <<258, "utf8mb4_lv_0900_ai_ci", "UTF8mb4Lv0900AiCi">>,
    <<259, "utf8mb4_ro_0900_ai_ci", "UTF8mb4Ro0900AiCi">>,
    <<260, "utf8mb4_sl_0900_ai_ci", "UTF8mb4Sl0900AiCi">>,
    <<261, "utf8mb4_pl_0900_ai_ci", "UTF8mb4Pl0900AiCi">>,
    <<262, "utf8mb4_et_0900_ai_ci", "UTF8mb4Et0900AiCi">>,
    <<263, "utf8mb4_es_0900_ai_ci", "UTF8mb4Es0900AiCi">>,
    <<264, "utf8mb4_sv_0900_ai_ci", "UTF8mb4Sv0900AiCi">>,
    <<265, "utf8mb4_tr_0900_ai_ci", "UTF8mb4Tr0900AiCi">>,
    <<266, "utf8mb4_cs_0900_ai_ci", "UTF8mb4Cs0900AiCi">>,
    <<267, "utf8mb4_da_0900_ai_ci", "UTF8mb4Da0900AiCi">>,
    <<268, "utf8mb4_lt_0900_ai_ci", "UTF8mb4Lt0900AiCi">>,
    <<269, "utf8mb4_sk_0900_ai_ci", "UTF8mb4Sk0900AiCi">>,
    <<270, "utf8mb4_es_trad_0900_ai_ci", "UTF8mb4EsTrad0900AiCi">>,
    <<271, "utf8mb4_la_0900_ai_ci", "UTF8mb4La0900AiCi">>,
    <<273, "utf8mb4_eo_0900_ai_ci", "UTF8mb4Eo0900AiCi">>,
    <<274, "utf8mb4_hu_0900_ai_ci", "UTF8mb4Hu0900AiCi">>,
    <<275, "utf8mb4_hr_0900_ai_ci", "UTF8mb4Hr0900AiCi">>,
    <<277, "utf8mb4_vi_0900_ai_ci", "UTF8mb4Vi0900AiCi">>, <<278, "utf8mb4_0900_as_cs", "UTF8mb40900AsCs">>,
    <<279, "utf8mb4_de_pb_0900_as_cs", "UTF8mb4DePb0900AsCs">>,
    <<280, "utf8mb4_is_0900_as_cs", "UTF8mb4Is0900AsCs">>,
    <<281, "utf8mb4_lv_0900_as_cs", "UTF8mb4Lv0900AsCs">>,
    <<282, "utf8mb4_ro_0900_as_cs", "UTF8mb4Ro0900AsCs">>,
    <<283, "utf8mb4_sl_0900_as_cs", "UTF8mb4Sl0900AsCs">>,
    <<284, "utf8mb4_pl_0900_as_cs", "UTF8mb4Pl0900AsCs">>,
    <<285, "utf8mb4_et_0900_as_cs", "UTF8mb4Et0900AsCs">>,
    <<286, "utf8mb4_es_0900_as_cs", "UTF8mb4Es0900AsCs">>,
    <<287, "utf8mb4_sv_0900_as_cs", "UTF8mb4Sv0900AsCs">>,
    <<288, "utf8mb4_tr_0900_as_cs", "UTF8mb4Tr0900AsCs">>,
    <<289, "utf8mb4_cs_0900_as_cs", "UTF8mb4Cs0900AsCs">>,
    <<290, "utf8mb4_da_0900_as_cs", "UTF8mb4Da0900AsCs">>,
    <<291, "utf8mb4_lt_0900_as_cs", "UTF8mb4Lt0900AsCs">>,
    <<292, "utf8mb4_sk_0900_as_cs", "UTF8mb4Sk0900AsCs">>,
    <<293, "utf8mb4_es_trad_0900_as_cs", "UTF8mb4EsTrad0900AsCs">>,
    <<294, "utf8mb4_la_0900_as_cs", "UTF8mb4La0900AsCs">>,
    <<296, "utf8mb4_eo_0900_as_cs", "UTF8mb4Eo0900AsCs">>,
    <<297, "utf8mb4_hu_0900_as_cs", "UTF8mb4Hu0900AsCs">>,
    <<298, "utf8mb4_hr_0900_as_cs", "UTF8mb4Hr0900AsCs">>,
    <<300, "utf8mb4_vi_0900_as_cs", "UTF8mb4Vi0900AsCs">>,
    <<303, "utf8mb4_ja_0900_as_cs", "UTF8mb4Ja0900AsCs">>,
    <<304, "utf8mb4_ja_0900_as_cs_ks", "UTF8mb4Ja0900AsCsKs">>,
    <<305, "utf8mb4_0900_as_ci", "UTF8mb40900AsCi">>, <<306, "utf8mb4_ru_0900_ai_ci", "UTF8mb4Ru0900AiCi">>,
    <<307, "utf8mb4_ru_0900_as_cs", "UTF8mb4Ru0900AsCs">>>>
Collations == InSeries \cup {[id |-> Single[i][1], name |-> Single[i][2], const |-> Single[i][3]] : i \in 1..Len(Single)}

Known(id) == \E c \in Collations : c.id = id
NameOf(id) == IF Known(id) THEN (CHOOSE c \in Collations : c.id = id).name ELSE "Collation(" \o ToString(id) \o ")"
Binary == 63

(* errors: runs of consecutive numbers *)
Runs == <<
  <<1000, <<
    "ErHashchk", "ErNisamchk", "ErNo", "ErYes", "ErCantCreateFile", "ErCantCreateTable", "ErCantCreateDb",
    "ErDbCreateExists", "ErDbDropExists", "ErDbDropDelete", "ErDbDropRmdir", "ErCantDeleteFile",
    "ErCantFindSystemRec", "ErCantGetStat", "ErCantGetWd", "ErCantLock", "ErCantOpenFile", "ErFileNotFound",
    "ErCantReadDir", "ErCantSetWd", "ErCheckread", "ErDiskFull", "ErDupKey", "ErErrorOnClose",
    "ErErrorOnRead", "ErErrorOnRename", "ErErrorOnWrite", "ErFileUsed", "ErFilsortAbort", "ErFormNotFound",
    "ErGetErrno", "ErIllegalHa", "ErKeyNotFound", "ErNotFormFile", "ErNotKeyfile", "ErOldKeyfile",
    "ErOpenAsReadonly", "ErOutofmemory", "ErOutOfSortmemory", "ErUnexpectedEOF", "ErConCountError",
    "ErOutOfResources", "ErBadHostError", "ErHandshakeError", "ErDbaccessDeniedError", "ErAccessDeniedError",
    "ErNoDbError", "ErUnknownComError", "ErBadNullError", "ErBadDbError", "ErTableExistsError",
    "ErBadTableError", "ErNonUniqError", "ErServerShutdown", "ErBadFieldError", "ErWrongFieldWithGroup",
    "ErWrongGroupField", "ErWrongSumSelect", "ErWrongValueCount", "ErTooLongIdent", "ErDupFieldname",
    "ErDupKeyname", "ErDupEntry", "ErWrongFieldSpec", "ErParseError", "ErEmptyQuery", "ErNonuniqTable",
    "ErInvalidDefault", "ErMultiplePriKey", "ErTooManyKeys", "ErTooManyKeyParts", "ErTooLongKey",
    "ErKeyColumnDoesNotExits", "ErBlobUsedAsKey", "ErTooBigFieldlength", "ErWrongAutoKey", "ErReady",
    "ErNormalShutdown", "ErGotSignal", "ErShutdownComplete", "ErForcingClose", "ErIpsockError",
    "ErNoSuchIndex", "ErWrongFieldTerminators", "ErBlobsAndNoTerminated", "ErTextfileNotReadable",
    "ErFileExistsError", "ErLoadInfo", "ErAlterInfo", "ErWrongSubKey", "ErCantRemoveAllFields",
    "ErCantDropFieldOrKey", "ErInsertInfo", "ErUpdateTableUsed", "ErNoSuchThread", "ErKillDeniedError",
    "ErNoTablesUsed", "ErTooBigSet", "ErNoUniqueLogfile", "ErTableNotLockedForWrite", "ErTableNotLocked",
    "ErBlobCantHaveDefault", "ErWrongDbName", "ErWrongTableName", "ErTooBigSelect", "ErUnknownError",
    "ErUnknownProcedure", "ErWrongParamcountToProcedure", "ErWrongParametersToProcedure", "ErUnknownTable",
    "ErFieldSpecifiedTwice", "ErInvalidGroupFuncUse", "ErUnsupportedExtension", "ErTableMustHaveColumns",
    "ErRecordFileFull", "ErUnknownCharacterSet", "ErTooManyTables", "ErTooManyFields", "ErTooBigRowsize",
    "ErStackOverrun", "ErWrongOuterJoin", "ErNullColumnInIndex", "ErCantFindUdf", "ErCantInitializeUdf",
    "ErUdfNoPaths", "ErUdfExists", "ErCantOpenLibrary", "ErCantFindDlEntry", "ErFunctionNotDefined",
    "ErHostIsBlocked", "ErHostNotPrivileged", "ErPasswordAnonymousUser", "ErPasswordNotAllowed",
    "ErPasswordNoMatch", "ErUpdateInfo", "ErCantCreateThread", "ErWrongValueCountOnRow", "ErCantReopenTable",
    "ErInvalidUseOfNull", "ErRegexpError", "ErMixOfGroupFuncAndFields", "ErNonexistingGrant",
    "ErTableaccessDeniedError", "ErColumnaccessDeniedError", "ErIllegalGrantForTable",
    "ErGrantWrongHostOrUser", "ErNoSuchTable", "ErNonexistingTableGrant", "ErNotAllowedCommand",
    "ErSyntaxError", "ErDelayedCantChangeLock", "ErTooManyDelayedThreads", "ErAbortingConnection",
    "ErNetPacketTooLarge", "ErNetReadErrorFromPipe", "ErNetFcntlError", "ErNetPacketsOutOfOrder",
    "ErNetUncompressError", "ErNetReadError", "ErNetReadInterrupted", "ErNetErrorOnWrite",
    "ErNetWriteInterrupted", "ErTooLongString", "ErTableCantHandleBlob", "ErTableCantHandleAutoIncrement",
    "ErDelayedInsertTableLocked", "ErWrongColumnName", "ErWrongKeyColumn", "ErWrongMrgTable", "ErDupUnique",
    "ErBlobKeyWithoutLength", "ErPrimaryCantHaveNull", "ErTooManyRows", "ErRequiresPrimaryKey",
    "ErNoRaidCompiled", "ErUpdateWithoutKeyInSafeMode", "ErKeyDoesNotExits", "ErCheckNoSuchTable",
    "ErCheckNotImplemented", "ErCantDoThisDuringAnTransaction", "ErErrorDuringCommit",
    "ErErrorDuringRollback", "ErErrorDuringFlushLogs", "ErErrorDuringCheckpoint", "ErNewAbortingConnection",
    "ErDumpNotImplemented", "ErFlushMasterBinlogClosed", "ErIndexRebuild", "ErMaster", "ErMasterNetRead",
    "ErMasterNetWrite", "ErFtMatchingKeyNotFound", "ErLockOrActiveTransaction", "ErUnknownSystemVariable",
    "ErCrashedOnUsage", "ErCrashedOnRepair", "ErWarningNotCompleteRollback", "ErTransCacheFull",
    "ErSlaveMustStop", "ErSlaveNotRunning", "ErBadSlave", "ErMasterInfo", "ErSlaveThread",
    "ErTooManyUserConnections", "ErSetConstantsOnly", "ErLockWaitTimeout", "ErLockTableFull",
    "ErReadOnlyTransaction", "ErDropDbWithReadLock", "ErCreateDbWithReadLock", "ErWrongArguments",
    "ErNoPermissionToCreateUser", "ErUnionTablesInDifferentDir", "ErLockDeadlock", "ErTableCantHandleFt",
    "ErCannotAddForeign", "ErNoReferencedRow", "ErRowIsReferenced", "ErConnectToMaster", "ErQueryOnMaster",
    "ErErrorWhenExecutingCommand", "ErWrongUsage", "ErWrongNumberOfColumnsInSelect",
    "ErCantUpdateWithReadlock", "ErMixingNotAllowed", "ErDupArgument", "ErUserLimitReached",
    "ErSpecificAccessDeniedError", "ErLocalVariable", "ErGlobalVariable", "ErNoDefault",
    "ErWrongValueForVar", "ErWrongTypeForVar", "ErVarCantBeRead", "ErCantUseOptionHere", "ErNotSupportedYet",
    "ErMasterFatalErrorReadingBinlog", "ErSlaveIgnoredTable", "ErIncorrectGlobalLocalVar", "ErWrongFkDef",
    "ErKeyRefDoNotMatchTableRef", "ErOperandColumns", "ErSubqueryNo1Row", "ErUnknownStmtHandler",
    "ErCorruptHelpDb", "ErCyclicReference", "ErAutoConvert", "ErIllegalReference", "ErDerivedMustHaveAlias",
    "ErSelectReduced", "ErTablenameNotAllowedHere", "ErNotSupportedAuthMode", "ErSpatialCantHaveNull",
    "ErCollationCharsetMismatch", "ErSlaveWasRunning", "ErSlaveWasNotRunning", "ErTooBigForUncompress",
    "ErZlibZMemError", "ErZlibZBufError", "ErZlibZDataError", "ErCutValueGroupConcat", "ErWarnTooFewRecords",
    "ErWarnTooManyRecords", "ErWarnNullToNotnull", "ErWarnDataOutOfRange", "WARNDataTruncated",
    "ErWarnUsingOtherHandler", "ErCantAggregate2Collations", "ErDropUser", "ErRevokeGrants",
    "ErCantAggregate3Collations", "ErCantAggregateNcollations", "ErVariableIsNotStruct",
    "ErUnknownCollation", "ErSlaveIgnoredSslParams", "ErServerIsInSecureAuthMode", "ErWarnFieldResolved",
    "ErBadSlaveUntilCond", "ErMissingSkipSlave", "ErUntilCondIgnored", "ErWrongNameForIndex",
    "ErWrongNameForCatalog", "ErWarnQcResize", "ErBadFtColumn", "ErUnknownKeyCache",
    "ErWarnHostnameWontWork", "ErUnknownStorageEngine", "ErWarnDeprecatedSyntax", "ErNonUpdatableTable",
    "ErFeatureDisabled", "ErOptionPreventsStatement", "ErDuplicatedValueInType", "ErTruncatedWrongValue",
    "ErTooMuchAutoTimestampCols", "ErInvalidOnUpdate", "ErUnsupportedPs", "ErGetErrmsg",
    "ErGetTemporaryErrmsg", "ErUnknownTimeZone", "ErWarnInvalidTimestamp", "ErInvalidCharacterString",
    "ErWarnAllowedPacketOverflowed", "ErConflictingDeclarations", "ErSpNoRecursiveCreate",
    "ErSpAlreadyExists", "ErSpDoesNotExist", "ErSpDropFailed", "ErSpStoreFailed", "ErSpLilabelMismatch",
    "ErSpLabelRedefine", "ErSpLabelMismatch", "ErSpUninitVar", "ErSpBadselect", "ErSpBadreturn",
    "ErSpBadstatement", "ErUpdateLogDeprecatedIgnored", "ErUpdateLogDeprecatedTranslated",
    "ErQueryInterrupted", "ErSpWrongNoOfArgs", "ErSpCondMismatch", "ErSpNoreturn", "ErSpNoreturnend",
    "ErSpBadCursorQuery", "ErSpBadCursorSelect", "ErSpCursorMismatch", "ErSpCursorAlreadyOpen",
    "ErSpCursorNotOpen", "ErSpUndeclaredVar", "ErSpWrongNoOfFetchArgs", "ErSpFetchNoData", "ErSpDupParam",
    "ErSpDupVar", "ErSpDupCond", "ErSpDupCurs", "ErSpCantAlter", "ErSpSubselectNyi",
    "ErStmtNotAllowedInSfOrTrg", "ErSpVarcondAfterCurshndlr", "ErSpCursorAfterHandler", "ErSpCaseNotFound",
    "ErFparserTooBigFile", "ErFparserBadHeader", "ErFparserEOFInComment", "ErFparserErrorInParameter",
    "ErFparserEOFInUnknownParameter", "ErViewNoExplain", "ErFrmUnknownType", "ErWrongObject",
    "ErNonupdateableColumn", "ErViewSelectDerived", "ErViewSelectClause", "ErViewSelectVariable",
    "ErViewSelectTmptable", "ErViewWrongList", "ErWarnViewMerge", "ErWarnViewWithoutKey", "ErViewInvalid",
    "ErSpNoDropSp", "ErSpGotoInHndlr", "ErTrgAlreadyExists", "ErTrgDoesNotExist", "ErTrgOnViewOrTempTable",
    "ErTrgCantChangeRow", "ErTrgNoSuchRowInTrg", "ErNoDefaultForField", "ErDivisionByZero",
    "ErTruncatedWrongValueForField", "ErIllegalValueForType", "ErViewNonupdCheck", "ErViewCheckFailed",
    "ErProcaccessDeniedError", "ErRelayLogFail", "ErPasswdLength", "ErUnknownTargetBinlog",
    "ErIoErrLogIndexRead", "ErBinlogPurgeProhibited", "ErFseekFail", "ErBinlogPurgeFatalErr", "ErLogInUse",
    "ErLogPurgeUnknownErr", "ErRelayLogInit", "ErNoBinaryLogging", "ErReservedSyntax", "ErWsasFailed",
    "ErDiffGroupsProc", "ErNoGroupForProc", "ErOrderWithProc", "ErLoggingProhibitChangingOf",
    "ErNoFileMapping", "ErWrongMagic", "ErPsManyParam", "ErKeyPart0", "ErViewChecksum", "ErViewMultiupdate",
    "ErViewNoInsertFieldList", "ErViewDeleteMergeView", "ErCannotUser", "ErXaerNota", "ErXaerInval",
    "ErXaerRmfail", "ErXaerOutside", "ErXaerRmerr", "ErXaRbrollback", "ErNonexistingProcGrant",
    "ErProcAutoGrantFail", "ErProcAutoRevokeFail", "ErDataTooLong", "ErSpBadSqlstate", "ErStartup",
    "ErLoadFromFixedSizeRowsToVar", "ErCantCreateUserWithGrant", "ErWrongValueForType", "ErTableDefChanged",
    "ErSpDupHandler", "ErSpNotVarArg", "ErSpNoRetset", "ErCantCreateGeometryObject",
    "ErFailedRoutineBreakBinlog", "ErBinlogUnsafeRoutine", "ErBinlogCreateRoutineNeedSuper",
    "ErExecStmtWithOpenCursor", "ErStmtHasNoOpenCursor", "ErCommitNotAllowedInSfOrTrg",
    "ErNoDefaultForViewField", "ErSpNoRecursion", "ErTooBigScale", "ErTooBigPrecision", "ErMBiggerThanD",
    "ErWrongLockOfSystemTable", "ErConnectToForeignDataSource", "ErQueryOnForeignDataSource",
    "ErForeignDataSourceDoesntExist", "ErForeignDataStringInvalidCantCreate", "ErForeignDataStringInvalid",
    "ErCantCreateFederatedTable", "ErTrgInWrongSchema", "ErStackOverrunNeedMore", "ErTooLongBody",
    "ErWarnCantDropDefaultKeycache", "ErTooBigDisplaywidth", "ErXaerDupid", "ErDatetimeFunctionOverflow",
    "ErCantUpdateUsedTableInSfOrTrg", "ErViewPreventUpdate", "ErPsNoRecursion", "ErSpCantSetAutocommit",
    "ErMalformedDefiner", "ErViewFrmNoUser", "ErViewOtherUser", "ErNoSuchUser", "ErForbidSchemaChange",
    "ErRowIsReferenced2", "ErNoReferencedRow2", "ErSpBadVarShadow", "ErTrgNoDefiner", "ErOldFileFormat",
    "ErSpRecursionLimit", "ErSpProcTableCorrupt", "ErSpWrongName", "ErTableNeedsUpgrade", "ErSpNoAggregate",
    "ErMaxPreparedStmtCountReached", "ErViewRecursive", "ErNonGroupingFieldUsed", "ErTableCantHandleSpkeys",
    "ErNoTriggersOnSystemSchema", "ErRemovedSpaces", "ErAutoincReadFailed", "ErUsername", "ErHostname",
    "ErWrongStringLength", "ErNonInsertableTable", "ErAdminWrongMrgTable",
    "ErTooHighLevelOfNestingForSelect", "ErNameBecomesEmpty", "ErAmbiguousFieldTerm",
    "ErForeignServerExists", "ErForeignServerDoesntExist", "ErIllegalHaCreateOption",
    "ErPartitionRequiresValuesError", "ErPartitionWrongValuesError", "ErPartitionMaxvalueError",
    "ErPartitionSubpartitionError", "ErPartitionSubpartMixError", "ErPartitionWrongNoPartError",
    "ErPartitionWrongNoSubpartError", "ErWrongExprInPartitionFuncError", "ErNoConstExprInRangeOrListError",
    "ErFieldNotFoundPartError", "ErListOfFieldsOnlyInHashError", "ErInconsistentPartitionInfoError",
    "ErPartitionFuncNotAllowedError", "ErPartitionsMustBeDefinedError", "ErRangeNotIncreasingError",
    "ErInconsistentTypeOfFunctionsError", "ErMultipleDefConstInListPartError", "ErPartitionEntryError",
    "ErMixHandlerError", "ErPartitionNotDefinedError", "ErTooManyPartitionsError", "ErSubpartitionError",
    "ErCantCreateHandlerFile", "ErBlobFieldInPartFuncError", "ErUniqueKeyNeedAllFieldsInPf",
    "ErNoPartsError", "ErPartitionMgmtOnNonpartitioned", "ErForeignKeyOnPartitioned",
    "ErDropPartitionNonExistent", "ErDropLastPartition", "ErCoalesceOnlyOnHashPartition",
    "ErReorgHashOnlyOnSameNo", "ErReorgNoParamError", "ErOnlyOnRangeListPartition",
    "ErAddPartitionSubpartError", "ErAddPartitionNoNewPartition", "ErCoalescePartitionNoPartition",
    "ErReorgPartitionNotExist", "ErSameNamePartition", "ErNoBinlogError", "ErConsecutiveReorgPartitions",
    "ErReorgOutsideRange", "ErPartitionFunctionFailure", "ErPartStateError", "ErLimitedPartRange",
    "ErPluginIsNotLoaded", "ErWrongValue", "ErNoPartitionForGivenValue", "ErFilegroupOptionOnlyOnce",
    "ErCreateFilegroupFailed", "ErDropFilegroupFailed", "ErTablespaceAutoExtendError", "ErWrongSizeNumber",
    "ErSizeOverflowError", "ErAlterFilegroupFailed", "ErBinlogRowLoggingFailed", "ErBinlogRowWrongTableDef",
    "ErBinlogRowRbrToSbr", "ErEventAlreadyExists", "ErEventStoreFailed", "ErEventDoesNotExist",
    "ErEventCantAlter", "ErEventDropFailed", "ErEventIntervalNotPositiveOrTooBig", "ErEventEndsBeforeStarts",
    "ErEventExecTimeInThePast", "ErEventOpenTableFailed", "ErEventNeitherMExprNorMAt",
    "ErObsoleteColCountDoesntMatchCorrupted", "ErObsoleteCannotLoadFromTable", "ErEventCannotDelete",
    "ErEventCompileError", "ErEventSameName", "ErEventDataTooLong", "ErDropIndexFk",
    "ErWarnDeprecatedSyntaxWithVer", "ErCantWriteLockLogTable", "ErCantLockLogTable",
    "ErForeignDuplicateKeyOldUnused", "ErColCountDoesntMatchPleaseUpdate",
    "ErTempTablePreventsSwitchOutOfRbr", "ErStoredFunctionPreventsSwitchBinlogFormat",
    "ErNdbCantSwitchBinlogFormat", "ErPartitionNoTemporary", "ErPartitionConstDomainError",
    "ErPartitionFunctionIsNotAllowed", "ErDdlLogError", "ErNullInValuesLessThan", "ErWrongPartitionName",
    "ErCantChangeTxCharacteristics", "ErDupEntryAutoincrementCase", "ErEventModifyQueueError",
    "ErEventSetVarError", "ErPartitionMergeError", "ErCantActivateLog", "ErRbrNotAvailable",
    "ErBase64DecodeError", "ErEventRecursionForbidden", "ErEventsDbError", "ErOnlyIntegersAllowed",
    "ErUnsuportedLogEngine", "ErBadLogStatement", "ErCantRenameLogTable", "ErWrongParamcountToNativeFct",
    "ErWrongParametersToNativeFct", "ErWrongParametersToStoredFct", "ErNativeFctNameCollision",
    "ErDupEntryWithKeyName", "ErBinlogPurgeEmfile", "ErEventCannotCreateInThePast",
    "ErEventCannotAlterInThePast", "ErSlaveIncident", "ErNoPartitionForGivenValueSilent",
    "ErBinlogUnsafeStatement", "ErSlaveFatalError", "ErSlaveRelayLogReadFailure",
    "ErSlaveRelayLogWriteFailure", "ErSlaveCreateEventFailure", "ErSlaveMasterComFailure",
    "ErBinlogLoggingImpossible", "ErViewNoCreationCtx", "ErViewInvalidCreationCtx", "ErSrInvalidCreationCtx",
    "ErTrgCorruptedFile", "ErTrgNoCreationCtx", "ErTrgInvalidCreationCtx", "ErEventInvalidCreationCtx",
    "ErTrgCantOpenTable", "ErCantCreateSroutine", "ErNeverUsed",
    "ErNoFormatDescriptionEventBeforeBinlogStatement", "ErSlaveCorruptEvent",
    "ErLoadDataInvalidColumnUnused", "ErLogPurgeNoFile", "ErXaRbtimeout", "ErXaRbdeadlock",
    "ErNeedReprepare", "ErDelayedNotSupported", "WARNNoMasterInfo", "WARNOptionIgnored",
    "ErPluginDeleteBuiltin", "WARNPluginBusy", "ErVariableIsReadonly", "ErWarnEngineTransactionRollback",
    "ErSlaveHeartbeatFailure", "ErSlaveHeartbeatValueOutOfRange", "ErNdbReplicationSchemaError",
    "ErConflictFnParseError", "ErExceptionsWriteError", "ErTooLongTableComment", "ErTooLongFieldComment",
    "ErFuncInexistentNameCollision", "ErDatabaseName", "ErTableName", "ErPartitionName",
    "ErSubpartitionName", "ErTemporaryName", "ErRenamedName", "ErTooManyConcurrentTrxs",
    "WarnNonASCIISeparatorNotImplemented", "ErDebugSyncTimeout", "ErDebugSyncHitLimit", "ErDupSignalSet",
    "ErSignalWarn", "ErSignalNotFound", "ErSignalException", "ErResignalWithoutActiveHandler",
    "ErSignalBadConditionType", "WarnCondItemTruncated", "ErCondItemTooLong", "ErUnknownLocale",
    "ErSlaveIgnoreServerIds", "ErQueryCacheDisabled", "ErSameNamePartitionField",
    "ErPartitionColumnListError", "ErWrongTypeColumnValueError", "ErTooManyPartitionFuncFieldsError",
    "ErMaxvalueInValuesIn", "ErTooManyValuesError", "ErRowSinglePartitionFieldError",
    "ErFieldTypeNotAllowedAsPartitionField", "ErPartitionFieldsTooLong", "ErBinlogRowEngineAndStmtEngine",
    "ErBinlogRowModeAndStmtEngine", "ErBinlogUnsafeAndStmtEngine", "ErBinlogRowInjectionAndStmtEngine",
    "ErBinlogStmtModeAndRowEngine", "ErBinlogRowInjectionAndStmtMode",
    "ErBinlogMultipleEnginesAndSelfLoggingEngine", "ErBinlogUnsafeLimit", "ErUnused4",
    "ErBinlogUnsafeSystemTable", "ErBinlogUnsafeAutoincColumns", "ErBinlogUnsafeUdf",
    "ErBinlogUnsafeSystemVariable", "ErBinlogUnsafeSystemFunction", "ErBinlogUnsafeNontransAfterTrans",
    "ErMessageAndStatement", "ErSlaveConversionFailed", "ErSlaveCantCreateConversion",
    "ErInsideTransactionPreventsSwitchBinlogFormat", "ErPathLength", "ErWarnDeprecatedSyntaxNoReplacement",
    "ErWrongNativeTableStructure", "ErWrongPerfschemaUsage", "ErWarnISSkippedTable",
    "ErInsideTransactionPreventsSwitchBinlogDirect", "ErStoredFunctionPreventsSwitchBinlogDirect",
    "ErSpatialMustHaveGeomCol", "ErTooLongIndexComment", "ErLockAborted", "ErDataOutOfRange",
    "ErWrongSpvarTypeInLimit", "ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine",
    "ErBinlogUnsafeMixedStatement", "ErInsideTransactionPreventsSwitchSQLLogBin",
    "ErStoredFunctionPreventsSwitchSQLLogBin", "ErFailedReadFromParFile", "ErValuesIsNotIntTypeError",
    "ErAccessDeniedNoPasswordError", "ErSetPasswordAuthPlugin", "ErGrantPluginUserExists",
    "ErTruncateIllegalFk", "ErPluginIsPermanent", "ErSlaveHeartbeatValueOutOfRangeMin",
    "ErSlaveHeartbeatValueOutOfRangeMax", "ErStmtCacheFull", "ErMultiUpdateKeyConflict",
    "ErTableNeedsRebuild", "WARNOptionBelowLimit", "ErIndexColumnTooLong", "ErErrorInTriggerBody",
    "ErErrorInUnknownTriggerBody", "ErIndexCorrupt", "ErUndoRecordTooBig",
    "ErBinlogUnsafeInsertIgnoreSelect", "ErBinlogUnsafeInsertSelectUpdate", "ErBinlogUnsafeReplaceSelect",
    "ErBinlogUnsafeCreateIgnoreSelect", "ErBinlogUnsafeCreateReplaceSelect", "ErBinlogUnsafeUpdateIgnore",
    "ErPluginNoUninstall", "ErPluginNoInstall", "ErBinlogUnsafeWriteAutoincSelect",
    "ErBinlogUnsafeCreateSelectAutoinc", "ErBinlogUnsafeInsertTwoKeys", "ErTableInFkCheck",
    "ErUnsupportedEngine", "ErBinlogUnsafeAutoincNotFirst", "ErCannotLoadFromTableV2",
    "ErMasterDelayValueOutOfRange", "ErOnlyFdAndRbrEventsAllowedInBinlogStatement",
    "ErPartitionExchangeDifferentOption", "ErPartitionExchangePartTable", "ErPartitionExchangeTempTable",
    "ErPartitionInsteadOfSubpartition", "ErUnknownPartition", "ErTablesDifferentMetadata",
    "ErRowDoesNotMatchPartition", "ErBinlogCacheSizeGreaterThanMax", "ErWarnIndexNotApplicable",
    "ErPartitionExchangeForeignKey", "ErNoSuchKeyValue", "ErRplInfoDataTooLong",
    "ErNetworkReadEventChecksumFailure", "ErBinlogReadEventChecksumFailure",
    "ErBinlogStmtCacheSizeGreaterThanMax", "ErCantUpdateTableInCreateTableSelect",
    "ErPartitionClauseOnNonpartitioned", "ErRowDoesNotMatchGivenPartitionSet", "ErNoSuchPartitionUnused",
    "ErChangeRplInfoRepositoryFailure", "ErWarningNotCompleteRollbackWithCreatedTempTable",
    "ErWarningNotCompleteRollbackWithDroppedTempTable", "ErMtsFeatureIsNotSupported",
    "ErMtsUpdatedDbsGreaterMax", "ErMtsCantParallel", "ErMtsInconsistentData",
    "ErFulltextNotSupportedWithPartitioning", "ErDaInvalidConditionNumber", "ErInsecurePlainText",
    "ErInsecureChangeMaster", "ErForeignDuplicateKeyWithChildInfo", "ErForeignDuplicateKeyWithoutChildInfo",
    "ErSqlthreadWithSecureSlave", "ErTableHasNoFt", "ErVariableNotSettableInSfOrTrigger",
    "ErVariableNotSettableInTransaction", "ErGTIDNextIsNotInGTIDNextList",
    "ErCantChangeGTIDNextInTransaction", "ErSetStatementCannotInvokeFunction",
    "ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull", "ErSkippingLoggedTransaction",
    "ErMalformedGTIDSetSpecification", "ErMalformedGTIDSetEncoding", "ErMalformedGTIDSpecification",
    "ErGnoExhausted", "ErBadSlaveAutoPosition", "ErAutoPositionRequiresGTIDModeNotOff",
    "ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet", "ErGTIDModeOnRequiresEnforceGTIDConsistencyOn",
    "ErGTIDModeRequiresBinlog", "ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff",
    "ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn", "ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff",
    "ErFoundGTIDEventWhenGTIDModeIsOffUnused", "ErGTIDUnsafeNonTransactionalTable",
    "ErGTIDUnsafeCreateSelect", "ErGTIDUnsafeCreateDropTemporaryTableInTransaction",
    "ErGTIDModeCanOnlyChangeOneStepAtATime", "ErMasterHasPurgedRequiredGTIDs",
    "ErCantSetGTIDNextWhenOwningGTID", "ErUnknownExplainFormat", "ErCantExecuteInReadOnlyTransaction",
    "ErTooLongTablePartitionComment", "ErSlaveConfiguration", "ErInnodbFtLimit", "ErInnodbNoFtTempTable",
    "ErInnodbFtWrongDocidColumn", "ErInnodbFtWrongDocidIndex", "ErInnodbOnlineLogTooBig",
    "ErUnknownAlterAlgorithm", "ErUnknownAlterLock", "ErMtsChangeMasterCantRunWithGaps",
    "ErMtsRecoveryFailure", "ErMtsResetWorkers", "ErColCountDoesntMatchCorruptedV2",
    "ErSlaveSilentRetryTransaction", "ErDiscardFkChecksRunning", "ErTableSchemaMismatch",
    "ErTableInSystemTablespace", "ErIoReadError", "ErIoWriteError", "ErTablespaceMissing",
    "ErTablespaceExists", "ErTablespaceDiscarded", "ErInternalError", "ErInnodbImportError",
    "ErInnodbIndexCorrupt", "ErInvalidYearColumnLength", "ErNotValidPassword", "ErMustChangePassword",
    "ErFkNoIndexChild", "ErFkNoIndexParent", "ErFkFailAddSystem", "ErFkCannotOpenParent",
    "ErFkIncorrectOption", "ErFkDupName", "ErPasswordFormat", "ErFkColumnCannotDrop",
    "ErFkColumnCannotDropChild", "ErFkColumnNotNull", "ErDupIndex", "ErFkColumnCannotChange",
    "ErFkColumnCannotChangeChild", "ErUnused5", "ErMalformedPacket", "ErReadOnlyMode",
    "ErGTIDNextTypeUndefinedGroup", "ErVariableNotSettableInSp", "ErCantSetGTIDPurgedWhenGTIDModeIsOff",
    "ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty", "ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty",
    "ErGTIDPurgedWasChanged", "ErGTIDExecutedWasChanged", "ErBinlogStmtModeAndNoReplTables",
    "ErAlterOperationNotSupported", "ErAlterOperationNotSupportedReason",
    "ErAlterOperationNotSupportedReasonCopy", "ErAlterOperationNotSupportedReasonPartition",
    "ErAlterOperationNotSupportedReasonFkRename", "ErAlterOperationNotSupportedReasonColumnType",
    "ErAlterOperationNotSupportedReasonFkCheck", "ErUnused6", "ErAlterOperationNotSupportedReasonNopk",
    "ErAlterOperationNotSupportedReasonAutoinc", "ErAlterOperationNotSupportedReasonHiddenFts",
    "ErAlterOperationNotSupportedReasonChangeFts", "ErAlterOperationNotSupportedReasonFts",
    "ErSQLSlaveSkipCounterNotSettableInGTIDMode", "ErDupUnknownInIndex", "ErIdentCausesTooLongPath",
    "ErAlterOperationNotSupportedReasonNotNull", "ErMustChangePasswordLogin", "ErRowInWrongPartition",
    "ErMtsEventBiggerPendingJobsSizeMax", "ErInnodbNoFtUsesParser", "ErBinlogLogicalCorruption",
    "ErWarnPurgeLogInUse", "ErWarnPurgeLogIsActive", "ErAutoIncrementConflict", "WARNOnBlockholeInRbr",
    "ErSlaveMiInitRepository", "ErSlaveRliInitRepository", "ErAccessDeniedChangeUserError",
    "ErInnodbReadOnly", "ErStopSlaveSQLThreadTimeout", "ErStopSlaveIoThreadTimeout", "ErTableCorrupt",
    "ErTempFileWriteFailure", "ErInnodbFtAuxNotHexID", "ErOldTemporalsUpgraded", "ErInnodbForcedRecovery",
    "ErAesInvalidIv", "ErPluginCannotBeUninstalled", "ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup",
    "ErSlaveHasMoreGTIDsThanMaster">>>>,
  <<3000, <<
    "ErFileCorrupt", "ErErrorOnMaster", "ErInconsistentError", "ErStorageEngineNotLoaded",
    "ErGetStackedDaWithoutActiveHandler", "ErWarnLegacySyntaxConverted", "ErBinlogUnsafeFulltextPlugin",
    "ErCannotDiscardTemporaryTable", "ErFkDepthExceeded", "ErColCountDoesntMatchPleaseUpdateV2",
    "ErWarnTriggerDoesntHaveCreated", "ErReferencedTrgDoesNotExist", "ErExplainNotSupported",
    "ErInvalidFieldSize", "ErMissingHaCreateOption", "ErEngineOutOfMemory", "ErPasswordExpireAnonymousUser",
    "ErSlaveSQLThreadMustStop", "ErNoFtMaterializedSubquery", "ErInnodbUndoLogFull",
    "ErInvalidArgumentForLogarithm", "ErSlaveChannelIoThreadMustStop", "ErWarnOpenTempTablesMustBeZero",
    "ErWarnOnlyMasterLogFileNoPos", "ErQueryTimeout", "ErNonRoSelectDisableTimer", "ErDupListEntry",
    "ErSQLModeNoEffect", "ErAggregateOrderForUnion", "ErAggregateOrderNonAggQuery",
    "ErSlaveWorkerStoppedPreviousThdError", "ErDontSupportSlavePreserveCommitOrder", "ErServerOfflineMode",
    "ErGisDifferentSrids", "ErGisUnsupportedArgument", "ErGisUnknownError", "ErGisUnknownException",
    "ErGisInvalidData", "ErBoostGeometryEmptyInputException", "ErBoostGeometryCentroidException",
    "ErBoostGeometryOverlayInvalidInputException", "ErBoostGeometryTurnInfoException",
    "ErBoostGeometrySelfIntersectionPointException", "ErBoostGeometryUnknownException", "ErStdBadAllocError",
    "ErStdDomainError", "ErStdLengthError", "ErStdInvalidArgument", "ErStdOutOfRangeError",
    "ErStdOverflowError", "ErStdRangeError", "ErStdUnderflowError", "ErStdLogicError", "ErStdRuntimeError",
    "ErStdUnknownException", "ErGisDataWrongEndianess", "ErChangeMasterPasswordLength",
    "ErUserLockWrongName", "ErUserLockDeadlock", "ErReplaceInaccessibleRows",
    "ErAlterOperationNotSupportedReasonGis", "ErIllegalUserVar", "ErGTIDModeOff",
    "ErUnsupportedByReplicationThread", "ErIncorrectType", "ErFieldInOrderNotSelect",
    "ErAggregateInOrderNotSelect", "ErInvalidRplWildTableFilterPattern", "ErNetOkPacketTooLarge",
    "ErInvalidJSONData", "ErInvalidGeojsonMissingMember", "ErInvalidGeojsonWrongType",
    "ErInvalidGeojsonUnspecified", "ErDimensionUnsupported", "ErSlaveChannelDoesNotExist",
    "ErSlaveMultipleChannelsHostPort", "ErSlaveChannelNameInvalidOrTooLong",
    "ErSlaveNewChannelWrongRepository", "ErSlaveChannelDelete", "ErSlaveMultipleChannelsCmd",
    "ErSlaveMaxChannelsExceeded", "ErSlaveChannelMustStop", "ErSlaveChannelNotRunning",
    "ErSlaveChannelWasRunning", "ErSlaveChannelWasNotRunning", "ErSlaveChannelSQLThreadMustStop",
    "ErSlaveChannelSQLSkipCounter", "ErWrongFieldWithGroupV2", "ErMixOfGroupFuncAndFieldsV2",
    "ErWarnDeprecatedSysvarUpdate", "ErWarnDeprecatedSqlmode", "ErCannotLogPartialDropDatabaseWithGTID",
    "ErGroupReplicationConfiguration", "ErGroupReplicationRunning", "ErGroupReplicationApplierInitError",
    "ErGroupReplicationStopApplierThreadTimeout", "ErGroupReplicationCommunicationLayerSessionError",
    "ErGroupReplicationCommunicationLayerJoinError", "ErBeforeDmlValidationError",
    "ErPreventsVariableWithoutRbr", "ErRunHookError", "ErTransactionRollbackDuringCommit",
    "ErGeneratedColumnFunctionIsNotAllowed", "ErUnsupportedAlterInplaceOnVirtualColumn",
    "ErWrongFkOptionForGeneratedColumn", "ErNonDefaultValueForGeneratedColumn",
    "ErUnsupportedActionOnGeneratedColumn", "ErGeneratedColumnNonPrior", "ErDependentByGeneratedColumn",
    "ErGeneratedColumnRefAutoInc", "ErFeatureNotAvailable", "ErCantSetGTIDMode",
    "ErCantUseAutoPositionWithGTIDModeOff", "ErCantReplicateAnonymousWithAutoPosition",
    "ErCantReplicateAnonymousWithGTIDModeOn", "ErCantReplicateGTIDWithGTIDModeOff",
    "ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions",
    "ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions", "ErAccountHasBeenLocked",
    "ErWrongTablespaceName", "ErTablespaceIsNotEmpty", "ErWrongFileName",
    "ErBoostGeometryInconsistentTurnsException", "ErWarnOptimizerHintSyntaxError",
    "ErWarnBadMaxExecutionTime", "ErWarnUnsupportedMaxExecutionTime", "ErWarnConflictingHint",
    "ErWarnUnknownQbName", "ErUnresolvedHintName", "ErWarnOnModifyingGTIDExecutedTable",
    "ErPluggableProtocolCommandNotSupported", "ErLockingServiceWrongName", "ErLockingServiceDeadlock",
    "ErLockingServiceTimeout", "ErGisMaxPointsInGeometryOverflowed", "ErSQLModeMerged",
    "ErVtokenPluginTokenMismatch", "ErVtokenPluginTokenNotFound", "ErCantSetVariableWhenOwningGTID",
    "ErSlaveChannelOperationNotAllowed", "ErInvalidJSONText", "ErInvalidJSONTextInParam",
    "ErInvalidJSONBinaryData", "ErInvalidJSONPath", "ErInvalidJSONCharset", "ErInvalidJSONCharsetInFunction",
    "ErInvalidTypeForJSON", "ErInvalidCastToJSON", "ErInvalidJSONPathCharset", "ErInvalidJSONPathWildcard",
    "ErJSONValueTooBig", "ErJSONKeyTooBig", "ErJSONUsedAsKey", "ErJSONVacuousPath", "ErJSONBadOneOrAllArg",
    "ErNumericJSONValueOutOfRange", "ErInvalidJSONValueForCast", "ErJSONDocumentTooDeep",
    "ErJSONDocumentNullKey", "ErSecureTransportRequired", "ErNoSecureTransportsConfigured",
    "ErDisabledStorageEngine", "ErUserDoesNotExist", "ErUserAlreadyExists", "ErAuditAPIAbort",
    "ErInvalidJSONPathArrayCell", "ErBufpoolResizeInprogress", "ErFeatureDisabledSeeDoc",
    "ErServerIsntAvailable", "ErSessionWasKilled", "ErCapacityExceeded",
    "ErCapacityExceededInRangeOptimizer", "ErTableNeedsUpgPart",
    "ErCantWaitForExecutedGTIDSetWhileOwningAGTID", "ErCannotAddForeignBaseColVirtual",
    "ErCannotCreateVirtualIndexConstraint", "ErErrorOnModifyingGTIDExecutedTable", "ErLockRefusedByEngine",
    "ErUnsupportedAlterOnlineOnVirtualColumn", "ErMasterKeyRotationNotSupportedBySe",
    "ErMasterKeyRotationErrorBySe", "ErMasterKeyRotationBinlogFailed", "ErMasterKeyRotationSeUnavailable",
    "ErTablespaceCannotEncrypt", "ErInvalidEncryptionOption", "ErCannotFindKeyInKeyring",
    "ErCapacityExceededInParser", "ErUnsupportedAlterEncryptionInplace", "ErKeyringUdfKeyringServiceError",
    "ErUserColumnOldLength">>>>,
  <<5010, <<
    "ErXServiceError", "ErXSession", "ErXInvalidArgument", "ErXMissingArgument", "ErXBadInsertData",
    "ErXCmdNumArguments", "ErXCmdArgumentType", "ErXCmdArgumentTVale", "ErXBadUpsertData">>>>,
  <<5050, <<
    "ErXBadUpdateData", "ErXBadTypeOfUpdate", "ErXBadColumnToUpdate", "ErXBadMemberToUpdate">>>>,
  <<5110, <<
    "ErXBadStatementID", "ErXBadCursorID", "ErXBadSchema", "ErXBadTable", "ErXBadProjection",
    "ErXDocIDMissing", "ErXDocIDDuplicate", "ErXDocRequiredFieldMissing">>>>,
  <<5120, <<
    "ErXProjBadKeyName", "ErXBadDocPath", "ErXCursorExists", "ErXCursorReachedEOF">>>>,
  <<5131, <<
    "ErXPreparedStatementCanHaveOnCursor">>>>,
  <<5133, <<
    "ErXPreparedExecuteArgumentNotSupported", "ErXPreparedExecuteArgumentConsistency">>>>,
  <<5150, <<
    "ErXExprBadOperator", "ErXExprBadNumArgs", "ErXExprMissingArg", "ErXExprBadTypeValue", "ErXExprBadValue">>>>,
  <<5156, <<
    "ErXInvalidCollection", "ErXInvalidAdminCommand", "ErXExpectNotOpen", "ErXExpectNoErrorFailed",
    "ErXExpectBadCondition", "ErXExpectBadConditionValue", "ErXInvalidNamespace", "ErXBadNotice",
    "ErXCannotDisableNotice", "ErXBadConfiguration">>>>,
  <<5167, <<
    "ErXMySQLXAaccountMissingPermissions", "ErXExpectFieldExistsFailed", "ErXBadLocking">>>>>>
Codes == UNION {{[code |-> Runs[r][1] + i - 1, const |-> Runs[r][2][i]] : i \in 1..Len(Runs[r][2])} : r \in 1..Len(Runs)}

(* what is asked and what was answered *)
Judge(ev) ==
    IF ev.pan THEN "panic"
    ELSE IF ev.k = "name" THEN
         IF ev.text # NameOf(ev.id) THEN "a collation goes by another name"
         ELSE IF ev.binary # (ev.id = Binary) THEN "not just binary is binary" ELSE ""
    ELSE IF ev.k = "collation" THEN
         LET id == (CHOOSE c \in Collations : c.const = ev.const).id IN
         IF ev.id # id THEN "a constant stands for another collation"
         ELSE IF ev.arg # id \/ ev.expr # id THEN "another collation reaches the server" ELSE ""
    ELSE IF ev.code # (CHOOSE c \in Codes : c.const = ev.const).code THEN "a constant stands for another error"
    ELSE IF ev.got # ev.code \/ ev.fatal # ev.sent THEN "the server's error does not arrive as it was sent"
    ELSE ""

(* the tables themselves *)
OneToOne(S, a(_), b(_)) == \A x, y \in S : (a(x) = a(y)) = (b(x) = b(y))
ASSUME Tables ==
    /\ Cardinality(Collations) = Cardinality(InSeries) + Len(Single)
    /\ OneToOne(Collations, LAMBDA x : x.id, LAMBDA x : x.name)
    /\ OneToOne(Collations, LAMBDA x : x.id, LAMBDA x : x.const)
    /\ Cardinality({c.code : c \in Codes}) = Cardinality(Codes)
    /\ Cardinality({c.const : c \in Codes}) = Cardinality(Codes)
    /\ NameOf(Binary) = "binary" /\ NameOf(45) = "utf8mb4_general_ci" /\ NameOf(255) = "utf8mb4_0900_ai_ci" /\ NameOf(0) = "Collation(0)"
=============================================================================
