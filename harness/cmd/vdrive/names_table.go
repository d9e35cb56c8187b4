//go:build xtnames

package main

import (
	"github.com/renthraysk/xtorm/collation"
	"github.com/renthraysk/xtorm/netx/connection/errs"
)

var collationConsts = map[string]collation.Collation{
	"Big5ChineseCi":         collation.Big5ChineseCi,
	"Latin2CzechCs":         collation.Latin2CzechCs,
	"Dec8SwedishCi":         collation.Dec8SwedishCi,
	"Cp850GeneralCi":        collation.Cp850GeneralCi,
	"Latin1German1Ci":       collation.Latin1German1Ci,
	"Hp8EnglishCi":          collation.Hp8EnglishCi,
	"Koi8rGeneralCi":        collation.Koi8rGeneralCi,
	"Latin1SwedishCi":       collation.Latin1SwedishCi,
	"Latin2GeneralCi":       collation.Latin2GeneralCi,
	"Swe7SwedishCi":         collation.Swe7SwedishCi,
	"ASCIIGeneralCi":        collation.ASCIIGeneralCi,
	"UjisJapaneseCi":        collation.UjisJapaneseCi,
	"SjisJapaneseCi":        collation.SjisJapaneseCi,
	"Cp1251BulgarianCi":     collation.Cp1251BulgarianCi,
	"Latin1DanishCi":        collation.Latin1DanishCi,
	"HebrewGeneralCi":       collation.HebrewGeneralCi,
	"Tis620ThaiCi":          collation.Tis620ThaiCi,
	"EuckrKoreanCi":         collation.EuckrKoreanCi,
	"Latin7EstonianCs":      collation.Latin7EstonianCs,
	"Latin2HungarianCi":     collation.Latin2HungarianCi,
	"Koi8uGeneralCi":        collation.Koi8uGeneralCi,
	"Cp1251UkrainianCi":     collation.Cp1251UkrainianCi,
	"Gb2312ChineseCi":       collation.Gb2312ChineseCi,
	"GreekGeneralCi":        collation.GreekGeneralCi,
	"Cp1250GeneralCi":       collation.Cp1250GeneralCi,
	"Latin2CroatianCi":      collation.Latin2CroatianCi,
	"GbkChineseCi":          collation.GbkChineseCi,
	"Cp1257LithuanianCi":    collation.Cp1257LithuanianCi,
	"Latin5TurkishCi":       collation.Latin5TurkishCi,
	"Latin1German2Ci":       collation.Latin1German2Ci,
	"Armscii8GeneralCi":     collation.Armscii8GeneralCi,
	"UTF8GeneralCi":         collation.UTF8GeneralCi,
	"Cp1250CzechCs":         collation.Cp1250CzechCs,
	"UCS2GeneralCi":         collation.UCS2GeneralCi,
	"Cp866GeneralCi":        collation.Cp866GeneralCi,
	"Keybcs2GeneralCi":      collation.Keybcs2GeneralCi,
	"MacceGeneralCi":        collation.MacceGeneralCi,
	"MacromanGeneralCi":     collation.MacromanGeneralCi,
	"Cp852GeneralCi":        collation.Cp852GeneralCi,
	"Latin7GeneralCi":       collation.Latin7GeneralCi,
	"Latin7GeneralCs":       collation.Latin7GeneralCs,
	"MacceBin":              collation.MacceBin,
	"Cp1250CroatianCi":      collation.Cp1250CroatianCi,
	"UTF8mb4GeneralCi":      collation.UTF8mb4GeneralCi,
	"UTF8mb4Bin":            collation.UTF8mb4Bin,
	"Latin1Bin":             collation.Latin1Bin,
	"Latin1GeneralCi":       collation.Latin1GeneralCi,
	"Latin1GeneralCs":       collation.Latin1GeneralCs,
	"Cp1251Bin":             collation.Cp1251Bin,
	"Cp1251GeneralCi":       collation.Cp1251GeneralCi,
	"Cp1251GeneralCs":       collation.Cp1251GeneralCs,
	"MacromanBin":           collation.MacromanBin,
	"UTF16GeneralCi":        collation.UTF16GeneralCi,
	"UTF16Bin":              collation.UTF16Bin,
	"UTF16leGeneralCi":      collation.UTF16leGeneralCi,
	"Cp1256GeneralCi":       collation.Cp1256GeneralCi,
	"Cp1257Bin":             collation.Cp1257Bin,
	"Cp1257GeneralCi":       collation.Cp1257GeneralCi,
	"UTF32GeneralCi":        collation.UTF32GeneralCi,
	"UTF32Bin":              collation.UTF32Bin,
	"UTF16leBin":            collation.UTF16leBin,
	"Binary":                collation.Binary,
	"Armscii8Bin":           collation.Armscii8Bin,
	"ASCIIBin":              collation.ASCIIBin,
	"Cp1250Bin":             collation.Cp1250Bin,
	"Cp1256Bin":             collation.Cp1256Bin,
	"Cp866Bin":              collation.Cp866Bin,
	"Dec8Bin":               collation.Dec8Bin,
	"GreekBin":              collation.GreekBin,
	"HebrewBin":             collation.HebrewBin,
	"Hp8Bin":                collation.Hp8Bin,
	"Keybcs2Bin":            collation.Keybcs2Bin,
	"Koi8rBin":              collation.Koi8rBin,
	"Koi8uBin":              collation.Koi8uBin,
	"UTF8TolowerCi":         collation.UTF8TolowerCi,
	"Latin2Bin":             collation.Latin2Bin,
	"Latin5Bin":             collation.Latin5Bin,
	"Latin7Bin":             collation.Latin7Bin,
	"Cp850Bin":              collation.Cp850Bin,
	"Cp852Bin":              collation.Cp852Bin,
	"Swe7Bin":               collation.Swe7Bin,
	"UTF8Bin":               collation.UTF8Bin,
	"Big5Bin":               collation.Big5Bin,
	"EuckrBin":              collation.EuckrBin,
	"Gb2312Bin":             collation.Gb2312Bin,
	"GbkBin":                collation.GbkBin,
	"SjisBin":               collation.SjisBin,
	"Tis620Bin":             collation.Tis620Bin,
	"UCS2Bin":               collation.UCS2Bin,
	"UjisBin":               collation.UjisBin,
	"Geostd8GeneralCi":      collation.Geostd8GeneralCi,
	"Geostd8Bin":            collation.Geostd8Bin,
	"Latin1SpanishCi":       collation.Latin1SpanishCi,
	"Cp932JapaneseCi":       collation.Cp932JapaneseCi,
	"Cp932Bin":              collation.Cp932Bin,
	"EucjpmsJapaneseCi":     collation.EucjpmsJapaneseCi,
	"EucjpmsBin":            collation.EucjpmsBin,
	"Cp1250PolishCi":        collation.Cp1250PolishCi,
	"UTF16UnicodeCi":        collation.UTF16UnicodeCi,
	"UTF16IcelandicCi":      collation.UTF16IcelandicCi,
	"UTF16LatvianCi":        collation.UTF16LatvianCi,
	"UTF16RomanianCi":       collation.UTF16RomanianCi,
	"UTF16SlovenianCi":      collation.UTF16SlovenianCi,
	"UTF16PolishCi":         collation.UTF16PolishCi,
	"UTF16EstonianCi":       collation.UTF16EstonianCi,
	"UTF16SpanishCi":        collation.UTF16SpanishCi,
	"UTF16SwedishCi":        collation.UTF16SwedishCi,
	"UTF16TurkishCi":        collation.UTF16TurkishCi,
	"UTF16CzechCi":          collation.UTF16CzechCi,
	"UTF16DanishCi":         collation.UTF16DanishCi,
	"UTF16LithuanianCi":     collation.UTF16LithuanianCi,
	"UTF16SlovakCi":         collation.UTF16SlovakCi,
	"UTF16Spanish2Ci":       collation.UTF16Spanish2Ci,
	"UTF16RomanCi":          collation.UTF16RomanCi,
	"UTF16PersianCi":        collation.UTF16PersianCi,
	"UTF16EsperantoCi":      collation.UTF16EsperantoCi,
	"UTF16HungarianCi":      collation.UTF16HungarianCi,
	"UTF16SinhalaCi":        collation.UTF16SinhalaCi,
	"UTF16German2Ci":        collation.UTF16German2Ci,
	"UTF16CroatianCi":       collation.UTF16CroatianCi,
	"UTF16Unicode520Ci":     collation.UTF16Unicode520Ci,
	"UTF16VietnameseCi":     collation.UTF16VietnameseCi,
	"UCS2UnicodeCi":         collation.UCS2UnicodeCi,
	"UCS2IcelandicCi":       collation.UCS2IcelandicCi,
	"UCS2LatvianCi":         collation.UCS2LatvianCi,
	"UCS2RomanianCi":        collation.UCS2RomanianCi,
	"UCS2SlovenianCi":       collation.UCS2SlovenianCi,
	"UCS2PolishCi":          collation.UCS2PolishCi,
	"UCS2EstonianCi":        collation.UCS2EstonianCi,
	"UCS2SpanishCi":         collation.UCS2SpanishCi,
	"UCS2SwedishCi":         collation.UCS2SwedishCi,
	"UCS2TurkishCi":         collation.UCS2TurkishCi,
	"UCS2CzechCi":           collation.UCS2CzechCi,
	"UCS2DanishCi":          collation.UCS2DanishCi,
	"UCS2LithuanianCi":      collation.UCS2LithuanianCi,
	"UCS2SlovakCi":          collation.UCS2SlovakCi,
	"UCS2Spanish2Ci":        collation.UCS2Spanish2Ci,
	"UCS2RomanCi":           collation.UCS2RomanCi,
	"UCS2PersianCi":         collation.UCS2PersianCi,
	"UCS2EsperantoCi":       collation.UCS2EsperantoCi,
	"UCS2HungarianCi":       collation.UCS2HungarianCi,
	"UCS2SinhalaCi":         collation.UCS2SinhalaCi,
	"UCS2German2Ci":         collation.UCS2German2Ci,
	"UCS2CroatianCi":        collation.UCS2CroatianCi,
	"UCS2Unicode520Ci":      collation.UCS2Unicode520Ci,
	"UCS2VietnameseCi":      collation.UCS2VietnameseCi,
	"UCS2GeneralMySQL500Ci": collation.UCS2GeneralMySQL500Ci,
	"UTF32UnicodeCi":        collation.UTF32UnicodeCi,
	"UTF32IcelandicCi":      collation.UTF32IcelandicCi,
	"UTF32LatvianCi":        collation.UTF32LatvianCi,
	"UTF32RomanianCi":       collation.UTF32RomanianCi,
	"UTF32SlovenianCi":      collation.UTF32SlovenianCi,
	"UTF32PolishCi":         collation.UTF32PolishCi,
	"UTF32EstonianCi":       collation.UTF32EstonianCi,
	"UTF32SpanishCi":        collation.UTF32SpanishCi,
	"UTF32SwedishCi":        collation.UTF32SwedishCi,
	"UTF32TurkishCi":        collation.UTF32TurkishCi,
	"UTF32CzechCi":          collation.UTF32CzechCi,
	"UTF32DanishCi":         collation.UTF32DanishCi,
	"UTF32LithuanianCi":     collation.UTF32LithuanianCi,
	"UTF32SlovakCi":         collation.UTF32SlovakCi,
	"UTF32Spanish2Ci":       collation.UTF32Spanish2Ci,
	"UTF32RomanCi":          collation.UTF32RomanCi,
	"UTF32PersianCi":        collation.UTF32PersianCi,
	"UTF32EsperantoCi":      collation.UTF32EsperantoCi,
	"UTF32HungarianCi":      collation.UTF32HungarianCi,
	"UTF32SinhalaCi":        collation.UTF32SinhalaCi,
	"UTF32German2Ci":        collation.UTF32German2Ci,
	"UTF32CroatianCi":       collation.UTF32CroatianCi,
	"UTF32Unicode520Ci":     collation.UTF32Unicode520Ci,
	"UTF32VietnameseCi":     collation.UTF32VietnameseCi,
	"UTF8UnicodeCi":         collation.UTF8UnicodeCi,
	"UTF8IcelandicCi":       collation.UTF8IcelandicCi,
	"UTF8LatvianCi":         collation.UTF8LatvianCi,
	"UTF8RomanianCi":        collation.UTF8RomanianCi,
	"UTF8SlovenianCi":       collation.UTF8SlovenianCi,
	"UTF8PolishCi":          collation.UTF8PolishCi,
	"UTF8EstonianCi":        collation.UTF8EstonianCi,
	"UTF8SpanishCi":         collation.UTF8SpanishCi,
	"UTF8SwedishCi":         collation.UTF8SwedishCi,
	"UTF8TurkishCi":         collation.UTF8TurkishCi,
	"UTF8CzechCi":           collation.UTF8CzechCi,
	"UTF8DanishCi":          collation.UTF8DanishCi,
	"UTF8LithuanianCi":      collation.UTF8LithuanianCi,
	"UTF8SlovakCi":          collation.UTF8SlovakCi,
	"UTF8Spanish2Ci":        collation.UTF8Spanish2Ci,
	"UTF8RomanCi":           collation.UTF8RomanCi,
	"UTF8PersianCi":         collation.UTF8PersianCi,
	"UTF8EsperantoCi":       collation.UTF8EsperantoCi,
	"UTF8HungarianCi":       collation.UTF8HungarianCi,
	"UTF8SinhalaCi":         collation.UTF8SinhalaCi,
	"UTF8German2Ci":         collation.UTF8German2Ci,
	"UTF8CroatianCi":        collation.UTF8CroatianCi,
	"UTF8Unicode520Ci":      collation.UTF8Unicode520Ci,
	"UTF8VietnameseCi":      collation.UTF8VietnameseCi,
	"UTF8GeneralMySQL500Ci": collation.UTF8GeneralMySQL500Ci,
	"UTF8mb4UnicodeCi":      collation.UTF8mb4UnicodeCi,
	"UTF8mb4IcelandicCi":    collation.UTF8mb4IcelandicCi,
	"UTF8mb4LatvianCi":      collation.UTF8mb4LatvianCi,
	"UTF8mb4RomanianCi":     collation.UTF8mb4RomanianCi,
	"UTF8mb4SlovenianCi":    collation.UTF8mb4SlovenianCi,
	"UTF8mb4PolishCi":       collation.UTF8mb4PolishCi,
	"UTF8mb4EstonianCi":     collation.UTF8mb4EstonianCi,
	"UTF8mb4SpanishCi":      collation.UTF8mb4SpanishCi,
	"UTF8mb4SwedishCi":      collation.UTF8mb4SwedishCi,
	"UTF8mb4TurkishCi":      collation.UTF8mb4TurkishCi,
	"UTF8mb4CzechCi":        collation.UTF8mb4CzechCi,
	"UTF8mb4DanishCi":       collation.UTF8mb4DanishCi,
	"UTF8mb4LithuanianCi":   collation.UTF8mb4LithuanianCi,
	"UTF8mb4SlovakCi":       collation.UTF8mb4SlovakCi,
	"UTF8mb4Spanish2Ci":     collation.UTF8mb4Spanish2Ci,
	"UTF8mb4RomanCi":        collation.UTF8mb4RomanCi,
	"UTF8mb4PersianCi":      collation.UTF8mb4PersianCi,
	"UTF8mb4EsperantoCi":    collation.UTF8mb4EsperantoCi,
	"UTF8mb4HungarianCi":    collation.UTF8mb4HungarianCi,
	"UTF8mb4SinhalaCi":      collation.UTF8mb4SinhalaCi,
	"UTF8mb4German2Ci":      collation.UTF8mb4German2Ci,
	"UTF8mb4CroatianCi":     collation.UTF8mb4CroatianCi,
	"UTF8mb4Unicode520Ci":   collation.UTF8mb4Unicode520Ci,
	"UTF8mb4VietnameseCi":   collation.UTF8mb4VietnameseCi,
	"Gb18030ChineseCi":      collation.Gb18030ChineseCi,
	"Gb18030Bin":            collation.Gb18030Bin,
	"Gb18030Unicode520Ci":   collation.Gb18030Unicode520Ci,
	"UTF8mb40900AiCi":       collation.UTF8mb40900AiCi,
	"UTF8mb4DePb0900AiCi":   collation.UTF8mb4DePb0900AiCi,
	"UTF8mb4Is0900AiCi":     collation.UTF8mb4Is0900AiCi,
	"UTF8mb4Lv0900AiCi":     collation.UTF8mb4Lv0900AiCi,
	"UTF8mb4Ro0900AiCi":     collation.UTF8mb4Ro0900AiCi,
	"UTF8mb4Sl0900AiCi":     collation.UTF8mb4Sl0900AiCi,
	"UTF8mb4Pl0900AiCi":     collation.UTF8mb4Pl0900AiCi,
	"UTF8mb4Et0900AiCi":     collation.UTF8mb4Et0900AiCi,
	"UTF8mb4Es0900AiCi":     collation.UTF8mb4Es0900AiCi,
	"UTF8mb4Sv0900AiCi":     collation.UTF8mb4Sv0900AiCi,
	"UTF8mb4Tr0900AiCi":     collation.UTF8mb4Tr0900AiCi,
	"UTF8mb4Cs0900AiCi":     collation.UTF8mb4Cs0900AiCi,
	"UTF8mb4Da0900AiCi":     collation.UTF8mb4Da0900AiCi,
	"UTF8mb4Lt0900AiCi":     collation.UTF8mb4Lt0900AiCi,
	"UTF8mb4Sk0900AiCi":     collation.UTF8mb4Sk0900AiCi,
	"UTF8mb4EsTrad0900AiCi": collation.UTF8mb4EsTrad0900AiCi,
	"UTF8mb4La0900AiCi":     collation.UTF8mb4La0900AiCi,
	"UTF8mb4Eo0900AiCi":     collation.UTF8mb4Eo0900AiCi,
	"UTF8mb4Hu0900AiCi":     collation.UTF8mb4Hu0900AiCi,
	"UTF8mb4Hr0900AiCi":     collation.UTF8mb4Hr0900AiCi,
	"UTF8mb4Vi0900AiCi":     collation.UTF8mb4Vi0900AiCi,
	"UTF8mb40900AsCs":       collation.UTF8mb40900AsCs,
	"UTF8mb4DePb0900AsCs":   collation.UTF8mb4DePb0900AsCs,
	"UTF8mb4Is0900AsCs":     collation.UTF8mb4Is0900AsCs,
	"UTF8mb4Lv0900AsCs":     collation.UTF8mb4Lv0900AsCs,
	"UTF8mb4Ro0900AsCs":     collation.UTF8mb4Ro0900AsCs,
	"UTF8mb4Sl0900AsCs":     collation.UTF8mb4Sl0900AsCs,
	"UTF8mb4Pl0900AsCs":     collation.UTF8mb4Pl0900AsCs,
	"UTF8mb4Et0900AsCs":     collation.UTF8mb4Et0900AsCs,
	"UTF8mb4Es0900AsCs":     collation.UTF8mb4Es0900AsCs,
	"UTF8mb4Sv0900AsCs":     collation.UTF8mb4Sv0900AsCs,
	"UTF8mb4Tr0900AsCs":     collation.UTF8mb4Tr0900AsCs,
	"UTF8mb4Cs0900AsCs":     collation.UTF8mb4Cs0900AsCs,
	"UTF8mb4Da0900AsCs":     collation.UTF8mb4Da0900AsCs,
	"UTF8mb4Lt0900AsCs":     collation.UTF8mb4Lt0900AsCs,
	"UTF8mb4Sk0900AsCs":     collation.UTF8mb4Sk0900AsCs,
	"UTF8mb4EsTrad0900AsCs": collation.UTF8mb4EsTrad0900AsCs,
	"UTF8mb4La0900AsCs":     collation.UTF8mb4La0900AsCs,
	"UTF8mb4Eo0900AsCs":     collation.UTF8mb4Eo0900AsCs,
	"UTF8mb4Hu0900AsCs":     collation.UTF8mb4Hu0900AsCs,
	"UTF8mb4Hr0900AsCs":     collation.UTF8mb4Hr0900AsCs,
	"UTF8mb4Vi0900AsCs":     collation.UTF8mb4Vi0900AsCs,
	"UTF8mb4Ja0900AsCs":     collation.UTF8mb4Ja0900AsCs,
	"UTF8mb4Ja0900AsCsKs":   collation.UTF8mb4Ja0900AsCsKs,
	"UTF8mb40900AsCi":       collation.UTF8mb40900AsCi,
	"UTF8mb4Ru0900AiCi":     collation.UTF8mb4Ru0900AiCi,
	"UTF8mb4Ru0900AsCs":     collation.UTF8mb4Ru0900AsCs,
}

var errorConsts = map[string]uint32{
	"ErHashchk":                                         errs.ErHashchk,
	"ErNisamchk":                                        errs.ErNisamchk,
	"ErNo":                                              errs.ErNo,
	"ErYes":                                             errs.ErYes,
	"ErCantCreateFile":                                  errs.ErCantCreateFile,
	"ErCantCreateTable":                                 errs.ErCantCreateTable,
	"ErCantCreateDb":                                    errs.ErCantCreateDb,
	"ErDbCreateExists":                                  errs.ErDbCreateExists,
	"ErDbDropExists":                                    errs.ErDbDropExists,
	"ErDbDropDelete":                                    errs.ErDbDropDelete,
	"ErDbDropRmdir":                                     errs.ErDbDropRmdir,
	"ErCantDeleteFile":                                  errs.ErCantDeleteFile,
	"ErCantFindSystemRec":                               errs.ErCantFindSystemRec,
	"ErCantGetStat":                                     errs.ErCantGetStat,
	"ErCantGetWd":                                       errs.ErCantGetWd,
	"ErCantLock":                                        errs.ErCantLock,
	"ErCantOpenFile":                                    errs.ErCantOpenFile,
	"ErFileNotFound":                                    errs.ErFileNotFound,
	"ErCantReadDir":                                     errs.ErCantReadDir,
	"ErCantSetWd":                                       errs.ErCantSetWd,
	"ErCheckread":                                       errs.ErCheckread,
	"ErDiskFull":                                        errs.ErDiskFull,
	"ErDupKey":                                          errs.ErDupKey,
	"ErErrorOnClose":                                    errs.ErErrorOnClose,
	"ErErrorOnRead":                                     errs.ErErrorOnRead,
	"ErErrorOnRename":                                   errs.ErErrorOnRename,
	"ErErrorOnWrite":                                    errs.ErErrorOnWrite,
	"ErFileUsed":                                        errs.ErFileUsed,
	"ErFilsortAbort":                                    errs.ErFilsortAbort,
	"ErFormNotFound":                                    errs.ErFormNotFound,
	"ErGetErrno":                                        errs.ErGetErrno,
	"ErIllegalHa":                                       errs.ErIllegalHa,
	"ErKeyNotFound":                                     errs.ErKeyNotFound,
	"ErNotFormFile":                                     errs.ErNotFormFile,
	"ErNotKeyfile":                                      errs.ErNotKeyfile,
	"ErOldKeyfile":                                      errs.ErOldKeyfile,
	"ErOpenAsReadonly":                                  errs.ErOpenAsReadonly,
	"ErOutofmemory":                                     errs.ErOutofmemory,
	"ErOutOfSortmemory":                                 errs.ErOutOfSortmemory,
	"ErUnexpectedEOF":                                   errs.ErUnexpectedEOF,
	"ErConCountError":                                   errs.ErConCountError,
	"ErOutOfResources":                                  errs.ErOutOfResources,
	"ErBadHostError":                                    errs.ErBadHostError,
	"ErHandshakeError":                                  errs.ErHandshakeError,
	"ErDbaccessDeniedError":                             errs.ErDbaccessDeniedError,
	"ErAccessDeniedError":                               errs.ErAccessDeniedError,
	"ErNoDbError":                                       errs.ErNoDbError,
	"ErUnknownComError":                                 errs.ErUnknownComError,
	"ErBadNullError":                                    errs.ErBadNullError,
	"ErBadDbError":                                      errs.ErBadDbError,
	"ErTableExistsError":                                errs.ErTableExistsError,
	"ErBadTableError":                                   errs.ErBadTableError,
	"ErNonUniqError":                                    errs.ErNonUniqError,
	"ErServerShutdown":                                  errs.ErServerShutdown,
	"ErBadFieldError":                                   errs.ErBadFieldError,
	"ErWrongFieldWithGroup":                             errs.ErWrongFieldWithGroup,
	"ErWrongGroupField":                                 errs.ErWrongGroupField,
	"ErWrongSumSelect":                                  errs.ErWrongSumSelect,
	"ErWrongValueCount":                                 errs.ErWrongValueCount,
	"ErTooLongIdent":                                    errs.ErTooLongIdent,
	"ErDupFieldname":                                    errs.ErDupFieldname,
	"ErDupKeyname":                                      errs.ErDupKeyname,
	"ErDupEntry":                                        errs.ErDupEntry,
	"ErWrongFieldSpec":                                  errs.ErWrongFieldSpec,
	"ErParseError":                                      errs.ErParseError,
	"ErEmptyQuery":                                      errs.ErEmptyQuery,
	"ErNonuniqTable":                                    errs.ErNonuniqTable,
	"ErInvalidDefault":                                  errs.ErInvalidDefault,
	"ErMultiplePriKey":                                  errs.ErMultiplePriKey,
	"ErTooManyKeys":                                     errs.ErTooManyKeys,
	"ErTooManyKeyParts":                                 errs.ErTooManyKeyParts,
	"ErTooLongKey":                                      errs.ErTooLongKey,
	"ErKeyColumnDoesNotExits":                           errs.ErKeyColumnDoesNotExits,
	"ErBlobUsedAsKey":                                   errs.ErBlobUsedAsKey,
	"ErTooBigFieldlength":                               errs.ErTooBigFieldlength,
	"ErWrongAutoKey":                                    errs.ErWrongAutoKey,
	"ErReady":                                           errs.ErReady,
	"ErNormalShutdown":                                  errs.ErNormalShutdown,
	"ErGotSignal":                                       errs.ErGotSignal,
	"ErShutdownComplete":                                errs.ErShutdownComplete,
	"ErForcingClose":                                    errs.ErForcingClose,
	"ErIpsockError":                                     errs.ErIpsockError,
	"ErNoSuchIndex":                                     errs.ErNoSuchIndex,
	"ErWrongFieldTerminators":                           errs.ErWrongFieldTerminators,
	"ErBlobsAndNoTerminated":                            errs.ErBlobsAndNoTerminated,
	"ErTextfileNotReadable":                             errs.ErTextfileNotReadable,
	"ErFileExistsError":                                 errs.ErFileExistsError,
	"ErLoadInfo":                                        errs.ErLoadInfo,
	"ErAlterInfo":                                       errs.ErAlterInfo,
	"ErWrongSubKey":                                     errs.ErWrongSubKey,
	"ErCantRemoveAllFields":                             errs.ErCantRemoveAllFields,
	"ErCantDropFieldOrKey":                              errs.ErCantDropFieldOrKey,
	"ErInsertInfo":                                      errs.ErInsertInfo,
	"ErUpdateTableUsed":                                 errs.ErUpdateTableUsed,
	"ErNoSuchThread":                                    errs.ErNoSuchThread,
	"ErKillDeniedError":                                 errs.ErKillDeniedError,
	"ErNoTablesUsed":                                    errs.ErNoTablesUsed,
	"ErTooBigSet":                                       errs.ErTooBigSet,
	"ErNoUniqueLogfile":                                 errs.ErNoUniqueLogfile,
	"ErTableNotLockedForWrite":                          errs.ErTableNotLockedForWrite,
	"ErTableNotLocked":                                  errs.ErTableNotLocked,
	"ErBlobCantHaveDefault":                             errs.ErBlobCantHaveDefault,
	"ErWrongDbName":                                     errs.ErWrongDbName,
	"ErWrongTableName":                                  errs.ErWrongTableName,
	"ErTooBigSelect":                                    errs.ErTooBigSelect,
	"ErUnknownError":                                    errs.ErUnknownError,
	"ErUnknownProcedure":                                errs.ErUnknownProcedure,
	"ErWrongParamcountToProcedure":                      errs.ErWrongParamcountToProcedure,
	"ErWrongParametersToProcedure":                      errs.ErWrongParametersToProcedure,
	"ErUnknownTable":                                    errs.ErUnknownTable,
	"ErFieldSpecifiedTwice":                             errs.ErFieldSpecifiedTwice,
	"ErInvalidGroupFuncUse":                             errs.ErInvalidGroupFuncUse,
	"ErUnsupportedExtension":                            errs.ErUnsupportedExtension,
	"ErTableMustHaveColumns":                            errs.ErTableMustHaveColumns,
	"ErRecordFileFull":                                  errs.ErRecordFileFull,
	"ErUnknownCharacterSet":                             errs.ErUnknownCharacterSet,
	"ErTooManyTables":                                   errs.ErTooManyTables,
	"ErTooManyFields":                                   errs.ErTooManyFields,
	"ErTooBigRowsize":                                   errs.ErTooBigRowsize,
	"ErStackOverrun":                                    errs.ErStackOverrun,
	"ErWrongOuterJoin":                                  errs.ErWrongOuterJoin,
	"ErNullColumnInIndex":                               errs.ErNullColumnInIndex,
	"ErCantFindUdf":                                     errs.ErCantFindUdf,
	"ErCantInitializeUdf":                               errs.ErCantInitializeUdf,
	"ErUdfNoPaths":                                      errs.ErUdfNoPaths,
	"ErUdfExists":                                       errs.ErUdfExists,
	"ErCantOpenLibrary":                                 errs.ErCantOpenLibrary,
	"ErCantFindDlEntry":                                 errs.ErCantFindDlEntry,
	"ErFunctionNotDefined":                              errs.ErFunctionNotDefined,
	"ErHostIsBlocked":                                   errs.ErHostIsBlocked,
	"ErHostNotPrivileged":                               errs.ErHostNotPrivileged,
	"ErPasswordAnonymousUser":                           errs.ErPasswordAnonymousUser,
	"ErPasswordNotAllowed":                              errs.ErPasswordNotAllowed,
	"ErPasswordNoMatch":                                 errs.ErPasswordNoMatch,
	"ErUpdateInfo":                                      errs.ErUpdateInfo,
	"ErCantCreateThread":                                errs.ErCantCreateThread,
	"ErWrongValueCountOnRow":                            errs.ErWrongValueCountOnRow,
	"ErCantReopenTable":                                 errs.ErCantReopenTable,
	"ErInvalidUseOfNull":                                errs.ErInvalidUseOfNull,
	"ErRegexpError":                                     errs.ErRegexpError,
	"ErMixOfGroupFuncAndFields":                         errs.ErMixOfGroupFuncAndFields,
	"ErNonexistingGrant":                                errs.ErNonexistingGrant,
	"ErTableaccessDeniedError":                          errs.ErTableaccessDeniedError,
	"ErColumnaccessDeniedError":                         errs.ErColumnaccessDeniedError,
	"ErIllegalGrantForTable":                            errs.ErIllegalGrantForTable,
	"ErGrantWrongHostOrUser":                            errs.ErGrantWrongHostOrUser,
	"ErNoSuchTable":                                     errs.ErNoSuchTable,
	"ErNonexistingTableGrant":                           errs.ErNonexistingTableGrant,
	"ErNotAllowedCommand":                               errs.ErNotAllowedCommand,
	"ErSyntaxError":                                     errs.ErSyntaxError,
	"ErDelayedCantChangeLock":                           errs.ErDelayedCantChangeLock,
	"ErTooManyDelayedThreads":                           errs.ErTooManyDelayedThreads,
	"ErAbortingConnection":                              errs.ErAbortingConnection,
	"ErNetPacketTooLarge":                               errs.ErNetPacketTooLarge,
	"ErNetReadErrorFromPipe":                            errs.ErNetReadErrorFromPipe,
	"ErNetFcntlError":                                   errs.ErNetFcntlError,
	"ErNetPacketsOutOfOrder":                            errs.ErNetPacketsOutOfOrder,
	"ErNetUncompressError":                              errs.ErNetUncompressError,
	"ErNetReadError":                                    errs.ErNetReadError,
	"ErNetReadInterrupted":                              errs.ErNetReadInterrupted,
	"ErNetErrorOnWrite":                                 errs.ErNetErrorOnWrite,
	"ErNetWriteInterrupted":                             errs.ErNetWriteInterrupted,
	"ErTooLongString":                                   errs.ErTooLongString,
	"ErTableCantHandleBlob":                             errs.ErTableCantHandleBlob,
	"ErTableCantHandleAutoIncrement":                    errs.ErTableCantHandleAutoIncrement,
	"ErDelayedInsertTableLocked":                        errs.ErDelayedInsertTableLocked,
	"ErWrongColumnName":                                 errs.ErWrongColumnName,
	"ErWrongKeyColumn":                                  errs.ErWrongKeyColumn,
	"ErWrongMrgTable":                                   errs.ErWrongMrgTable,
	"ErDupUnique":                                       errs.ErDupUnique,
	"ErBlobKeyWithoutLength":                            errs.ErBlobKeyWithoutLength,
	"ErPrimaryCantHaveNull":                             errs.ErPrimaryCantHaveNull,
	"ErTooManyRows":                                     errs.ErTooManyRows,
	"ErRequiresPrimaryKey":                              errs.ErRequiresPrimaryKey,
	"ErNoRaidCompiled":                                  errs.ErNoRaidCompiled,
	"ErUpdateWithoutKeyInSafeMode":                      errs.ErUpdateWithoutKeyInSafeMode,
	"ErKeyDoesNotExits":                                 errs.ErKeyDoesNotExits,
	"ErCheckNoSuchTable":                                errs.ErCheckNoSuchTable,
	"ErCheckNotImplemented":                             errs.ErCheckNotImplemented,
	"ErCantDoThisDuringAnTransaction":                   errs.ErCantDoThisDuringAnTransaction,
	"ErErrorDuringCommit":                               errs.ErErrorDuringCommit,
	"ErErrorDuringRollback":                             errs.ErErrorDuringRollback,
	"ErErrorDuringFlushLogs":                            errs.ErErrorDuringFlushLogs,
	"ErErrorDuringCheckpoint":                           errs.ErErrorDuringCheckpoint,
	"ErNewAbortingConnection":                           errs.ErNewAbortingConnection,
	"ErDumpNotImplemented":                              errs.ErDumpNotImplemented,
	"ErFlushMasterBinlogClosed":                         errs.ErFlushMasterBinlogClosed,
	"ErIndexRebuild":                                    errs.ErIndexRebuild,
	"ErMaster":                                          errs.ErMaster,
	"ErMasterNetRead":                                   errs.ErMasterNetRead,
	"ErMasterNetWrite":                                  errs.ErMasterNetWrite,
	"ErFtMatchingKeyNotFound":                           errs.ErFtMatchingKeyNotFound,
	"ErLockOrActiveTransaction":                         errs.ErLockOrActiveTransaction,
	"ErUnknownSystemVariable":                           errs.ErUnknownSystemVariable,
	"ErCrashedOnUsage":                                  errs.ErCrashedOnUsage,
	"ErCrashedOnRepair":                                 errs.ErCrashedOnRepair,
	"ErWarningNotCompleteRollback":                      errs.ErWarningNotCompleteRollback,
	"ErTransCacheFull":                                  errs.ErTransCacheFull,
	"ErSlaveMustStop":                                   errs.ErSlaveMustStop,
	"ErSlaveNotRunning":                                 errs.ErSlaveNotRunning,
	"ErBadSlave":                                        errs.ErBadSlave,
	"ErMasterInfo":                                      errs.ErMasterInfo,
	"ErSlaveThread":                                     errs.ErSlaveThread,
	"ErTooManyUserConnections":                          errs.ErTooManyUserConnections,
	"ErSetConstantsOnly":                                errs.ErSetConstantsOnly,
	"ErLockWaitTimeout":                                 errs.ErLockWaitTimeout,
	"ErLockTableFull":                                   errs.ErLockTableFull,
	"ErReadOnlyTransaction":                             errs.ErReadOnlyTransaction,
	"ErDropDbWithReadLock":                              errs.ErDropDbWithReadLock,
	"ErCreateDbWithReadLock":                            errs.ErCreateDbWithReadLock,
	"ErWrongArguments":                                  errs.ErWrongArguments,
	"ErNoPermissionToCreateUser":                        errs.ErNoPermissionToCreateUser,
	"ErUnionTablesInDifferentDir":                       errs.ErUnionTablesInDifferentDir,
	"ErLockDeadlock":                                    errs.ErLockDeadlock,
	"ErTableCantHandleFt":                               errs.ErTableCantHandleFt,
	"ErCannotAddForeign":                                errs.ErCannotAddForeign,
	"ErNoReferencedRow":                                 errs.ErNoReferencedRow,
	"ErRowIsReferenced":                                 errs.ErRowIsReferenced,
	"ErConnectToMaster":                                 errs.ErConnectToMaster,
	"ErQueryOnMaster":                                   errs.ErQueryOnMaster,
	"ErErrorWhenExecutingCommand":                       errs.ErErrorWhenExecutingCommand,
	"ErWrongUsage":                                      errs.ErWrongUsage,
	"ErWrongNumberOfColumnsInSelect":                    errs.ErWrongNumberOfColumnsInSelect,
	"ErCantUpdateWithReadlock":                          errs.ErCantUpdateWithReadlock,
	"ErMixingNotAllowed":                                errs.ErMixingNotAllowed,
	"ErDupArgument":                                     errs.ErDupArgument,
	"ErUserLimitReached":                                errs.ErUserLimitReached,
	"ErSpecificAccessDeniedError":                       errs.ErSpecificAccessDeniedError,
	"ErLocalVariable":                                   errs.ErLocalVariable,
	"ErGlobalVariable":                                  errs.ErGlobalVariable,
	"ErNoDefault":                                       errs.ErNoDefault,
	"ErWrongValueForVar":                                errs.ErWrongValueForVar,
	"ErWrongTypeForVar":                                 errs.ErWrongTypeForVar,
	"ErVarCantBeRead":                                   errs.ErVarCantBeRead,
	"ErCantUseOptionHere":                               errs.ErCantUseOptionHere,
	"ErNotSupportedYet":                                 errs.ErNotSupportedYet,
	"ErMasterFatalErrorReadingBinlog":                   errs.ErMasterFatalErrorReadingBinlog,
	"ErSlaveIgnoredTable":                               errs.ErSlaveIgnoredTable,
	"ErIncorrectGlobalLocalVar":                         errs.ErIncorrectGlobalLocalVar,
	"ErWrongFkDef":                                      errs.ErWrongFkDef,
	"ErKeyRefDoNotMatchTableRef":                        errs.ErKeyRefDoNotMatchTableRef,
	"ErOperandColumns":                                  errs.ErOperandColumns,
	"ErSubqueryNo1Row":                                  errs.ErSubqueryNo1Row,
	"ErUnknownStmtHandler":                              errs.ErUnknownStmtHandler,
	"ErCorruptHelpDb":                                   errs.ErCorruptHelpDb,
	"ErCyclicReference":                                 errs.ErCyclicReference,
	"ErAutoConvert":                                     errs.ErAutoConvert,
	"ErIllegalReference":                                errs.ErIllegalReference,
	"ErDerivedMustHaveAlias":                            errs.ErDerivedMustHaveAlias,
	"ErSelectReduced":                                   errs.ErSelectReduced,
	"ErTablenameNotAllowedHere":                         errs.ErTablenameNotAllowedHere,
	"ErNotSupportedAuthMode":                            errs.ErNotSupportedAuthMode,
	"ErSpatialCantHaveNull":                             errs.ErSpatialCantHaveNull,
	"ErCollationCharsetMismatch":                        errs.ErCollationCharsetMismatch,
	"ErSlaveWasRunning":                                 errs.ErSlaveWasRunning,
	"ErSlaveWasNotRunning":                              errs.ErSlaveWasNotRunning,
	"ErTooBigForUncompress":                             errs.ErTooBigForUncompress,
	"ErZlibZMemError":                                   errs.ErZlibZMemError,
	"ErZlibZBufError":                                   errs.ErZlibZBufError,
	"ErZlibZDataError":                                  errs.ErZlibZDataError,
	"ErCutValueGroupConcat":                             errs.ErCutValueGroupConcat,
	"ErWarnTooFewRecords":                               errs.ErWarnTooFewRecords,
	"ErWarnTooManyRecords":                              errs.ErWarnTooManyRecords,
	"ErWarnNullToNotnull":                               errs.ErWarnNullToNotnull,
	"ErWarnDataOutOfRange":                              errs.ErWarnDataOutOfRange,
	"WARNDataTruncated":                                 errs.WARNDataTruncated,
	"ErWarnUsingOtherHandler":                           errs.ErWarnUsingOtherHandler,
	"ErCantAggregate2Collations":                        errs.ErCantAggregate2Collations,
	"ErDropUser":                                        errs.ErDropUser,
	"ErRevokeGrants":                                    errs.ErRevokeGrants,
	"ErCantAggregate3Collations":                        errs.ErCantAggregate3Collations,
	"ErCantAggregateNcollations":                        errs.ErCantAggregateNcollations,
	"ErVariableIsNotStruct":                             errs.ErVariableIsNotStruct,
	"ErUnknownCollation":                                errs.ErUnknownCollation,
	"ErSlaveIgnoredSslParams":                           errs.ErSlaveIgnoredSslParams,
	"ErServerIsInSecureAuthMode":                        errs.ErServerIsInSecureAuthMode,
	"ErWarnFieldResolved":                               errs.ErWarnFieldResolved,
	"ErBadSlaveUntilCond":                               errs.ErBadSlaveUntilCond,
	"ErMissingSkipSlave":                                errs.ErMissingSkipSlave,
	"ErUntilCondIgnored":                                errs.ErUntilCondIgnored,
	"ErWrongNameForIndex":                               errs.ErWrongNameForIndex,
	"ErWrongNameForCatalog":                             errs.ErWrongNameForCatalog,
	"ErWarnQcResize":                                    errs.ErWarnQcResize,
	"ErBadFtColumn":                                     errs.ErBadFtColumn,
	"ErUnknownKeyCache":                                 errs.ErUnknownKeyCache,
	"ErWarnHostnameWontWork":                            errs.ErWarnHostnameWontWork,
	"ErUnknownStorageEngine":                            errs.ErUnknownStorageEngine,
	"ErWarnDeprecatedSyntax":                            errs.ErWarnDeprecatedSyntax,
	"ErNonUpdatableTable":                               errs.ErNonUpdatableTable,
	"ErFeatureDisabled":                                 errs.ErFeatureDisabled,
	"ErOptionPreventsStatement":                         errs.ErOptionPreventsStatement,
	"ErDuplicatedValueInType":                           errs.ErDuplicatedValueInType,
	"ErTruncatedWrongValue":                             errs.ErTruncatedWrongValue,
	"ErTooMuchAutoTimestampCols":                        errs.ErTooMuchAutoTimestampCols,
	"ErInvalidOnUpdate":                                 errs.ErInvalidOnUpdate,
	"ErUnsupportedPs":                                   errs.ErUnsupportedPs,
	"ErGetErrmsg":                                       errs.ErGetErrmsg,
	"ErGetTemporaryErrmsg":                              errs.ErGetTemporaryErrmsg,
	"ErUnknownTimeZone":                                 errs.ErUnknownTimeZone,
	"ErWarnInvalidTimestamp":                            errs.ErWarnInvalidTimestamp,
	"ErInvalidCharacterString":                          errs.ErInvalidCharacterString,
	"ErWarnAllowedPacketOverflowed":                     errs.ErWarnAllowedPacketOverflowed,
	"ErConflictingDeclarations":                         errs.ErConflictingDeclarations,
	"ErSpNoRecursiveCreate":                             errs.ErSpNoRecursiveCreate,
	"ErSpAlreadyExists":                                 errs.ErSpAlreadyExists,
	"ErSpDoesNotExist":                                  errs.ErSpDoesNotExist,
	"ErSpDropFailed":                                    errs.ErSpDropFailed,
	"ErSpStoreFailed":                                   errs.ErSpStoreFailed,
	"ErSpLilabelMismatch":                               errs.ErSpLilabelMismatch,
	"ErSpLabelRedefine":                                 errs.ErSpLabelRedefine,
	"ErSpLabelMismatch":                                 errs.ErSpLabelMismatch,
	"ErSpUninitVar":                                     errs.ErSpUninitVar,
	"ErSpBadselect":                                     errs.ErSpBadselect,
	"ErSpBadreturn":                                     errs.ErSpBadreturn,
	"ErSpBadstatement":                                  errs.ErSpBadstatement,
	"ErUpdateLogDeprecatedIgnored":                      errs.ErUpdateLogDeprecatedIgnored,
	"ErUpdateLogDeprecatedTranslated":                   errs.ErUpdateLogDeprecatedTranslated,
	"ErQueryInterrupted":                                errs.ErQueryInterrupted,
	"ErSpWrongNoOfArgs":                                 errs.ErSpWrongNoOfArgs,
	"ErSpCondMismatch":                                  errs.ErSpCondMismatch,
	"ErSpNoreturn":                                      errs.ErSpNoreturn,
	"ErSpNoreturnend":                                   errs.ErSpNoreturnend,
	"ErSpBadCursorQuery":                                errs.ErSpBadCursorQuery,
	"ErSpBadCursorSelect":                               errs.ErSpBadCursorSelect,
	"ErSpCursorMismatch":                                errs.ErSpCursorMismatch,
	"ErSpCursorAlreadyOpen":                             errs.ErSpCursorAlreadyOpen,
	"ErSpCursorNotOpen":                                 errs.ErSpCursorNotOpen,
	"ErSpUndeclaredVar":                                 errs.ErSpUndeclaredVar,
	"ErSpWrongNoOfFetchArgs":                            errs.ErSpWrongNoOfFetchArgs,
	"ErSpFetchNoData":                                   errs.ErSpFetchNoData,
	"ErSpDupParam":                                      errs.ErSpDupParam,
	"ErSpDupVar":                                        errs.ErSpDupVar,
	"ErSpDupCond":                                       errs.ErSpDupCond,
	"ErSpDupCurs":                                       errs.ErSpDupCurs,
	"ErSpCantAlter":                                     errs.ErSpCantAlter,
	"ErSpSubselectNyi":                                  errs.ErSpSubselectNyi,
	"ErStmtNotAllowedInSfOrTrg":                         errs.ErStmtNotAllowedInSfOrTrg,
	"ErSpVarcondAfterCurshndlr":                         errs.ErSpVarcondAfterCurshndlr,
	"ErSpCursorAfterHandler":                            errs.ErSpCursorAfterHandler,
	"ErSpCaseNotFound":                                  errs.ErSpCaseNotFound,
	"ErFparserTooBigFile":                               errs.ErFparserTooBigFile,
	"ErFparserBadHeader":                                errs.ErFparserBadHeader,
	"ErFparserEOFInComment":                             errs.ErFparserEOFInComment,
	"ErFparserErrorInParameter":                         errs.ErFparserErrorInParameter,
	"ErFparserEOFInUnknownParameter":                    errs.ErFparserEOFInUnknownParameter,
	"ErViewNoExplain":                                   errs.ErViewNoExplain,
	"ErFrmUnknownType":                                  errs.ErFrmUnknownType,
	"ErWrongObject":                                     errs.ErWrongObject,
	"ErNonupdateableColumn":                             errs.ErNonupdateableColumn,
	"ErViewSelectDerived":                               errs.ErViewSelectDerived,
	"ErViewSelectClause":                                errs.ErViewSelectClause,
	"ErViewSelectVariable":                              errs.ErViewSelectVariable,
	"ErViewSelectTmptable":                              errs.ErViewSelectTmptable,
	"ErViewWrongList":                                   errs.ErViewWrongList,
	"ErWarnViewMerge":                                   errs.ErWarnViewMerge,
	"ErWarnViewWithoutKey":                              errs.ErWarnViewWithoutKey,
	"ErViewInvalid":                                     errs.ErViewInvalid,
	"ErSpNoDropSp":                                      errs.ErSpNoDropSp,
	"ErSpGotoInHndlr":                                   errs.ErSpGotoInHndlr,
	"ErTrgAlreadyExists":                                errs.ErTrgAlreadyExists,
	"ErTrgDoesNotExist":                                 errs.ErTrgDoesNotExist,
	"ErTrgOnViewOrTempTable":                            errs.ErTrgOnViewOrTempTable,
	"ErTrgCantChangeRow":                                errs.ErTrgCantChangeRow,
	"ErTrgNoSuchRowInTrg":                               errs.ErTrgNoSuchRowInTrg,
	"ErNoDefaultForField":                               errs.ErNoDefaultForField,
	"ErDivisionByZero":                                  errs.ErDivisionByZero,
	"ErTruncatedWrongValueForField":                     errs.ErTruncatedWrongValueForField,
	"ErIllegalValueForType":                             errs.ErIllegalValueForType,
	"ErViewNonupdCheck":                                 errs.ErViewNonupdCheck,
	"ErViewCheckFailed":                                 errs.ErViewCheckFailed,
	"ErProcaccessDeniedError":                           errs.ErProcaccessDeniedError,
	"ErRelayLogFail":                                    errs.ErRelayLogFail,
	"ErPasswdLength":                                    errs.ErPasswdLength,
	"ErUnknownTargetBinlog":                             errs.ErUnknownTargetBinlog,
	"ErIoErrLogIndexRead":                               errs.ErIoErrLogIndexRead,
	"ErBinlogPurgeProhibited":                           errs.ErBinlogPurgeProhibited,
	"ErFseekFail":                                       errs.ErFseekFail,
	"ErBinlogPurgeFatalErr":                             errs.ErBinlogPurgeFatalErr,
	"ErLogInUse":                                        errs.ErLogInUse,
	"ErLogPurgeUnknownErr":                              errs.ErLogPurgeUnknownErr,
	"ErRelayLogInit":                                    errs.ErRelayLogInit,
	"ErNoBinaryLogging":                                 errs.ErNoBinaryLogging,
	"ErReservedSyntax":                                  errs.ErReservedSyntax,
	"ErWsasFailed":                                      errs.ErWsasFailed,
	"ErDiffGroupsProc":                                  errs.ErDiffGroupsProc,
	"ErNoGroupForProc":                                  errs.ErNoGroupForProc,
	"ErOrderWithProc":                                   errs.ErOrderWithProc,
	"ErLoggingProhibitChangingOf":                       errs.ErLoggingProhibitChangingOf,
	"ErNoFileMapping":                                   errs.ErNoFileMapping,
	"ErWrongMagic":                                      errs.ErWrongMagic,
	"ErPsManyParam":                                     errs.ErPsManyParam,
	"ErKeyPart0":                                        errs.ErKeyPart0,
	"ErViewChecksum":                                    errs.ErViewChecksum,
	"ErViewMultiupdate":                                 errs.ErViewMultiupdate,
	"ErViewNoInsertFieldList":                           errs.ErViewNoInsertFieldList,
	"ErViewDeleteMergeView":                             errs.ErViewDeleteMergeView,
	"ErCannotUser":                                      errs.ErCannotUser,
	"ErXaerNota":                                        errs.ErXaerNota,
	"ErXaerInval":                                       errs.ErXaerInval,
	"ErXaerRmfail":                                      errs.ErXaerRmfail,
	"ErXaerOutside":                                     errs.ErXaerOutside,
	"ErXaerRmerr":                                       errs.ErXaerRmerr,
	"ErXaRbrollback":                                    errs.ErXaRbrollback,
	"ErNonexistingProcGrant":                            errs.ErNonexistingProcGrant,
	"ErProcAutoGrantFail":                               errs.ErProcAutoGrantFail,
	"ErProcAutoRevokeFail":                              errs.ErProcAutoRevokeFail,
	"ErDataTooLong":                                     errs.ErDataTooLong,
	"ErSpBadSqlstate":                                   errs.ErSpBadSqlstate,
	"ErStartup":                                         errs.ErStartup,
	"ErLoadFromFixedSizeRowsToVar":                      errs.ErLoadFromFixedSizeRowsToVar,
	"ErCantCreateUserWithGrant":                         errs.ErCantCreateUserWithGrant,
	"ErWrongValueForType":                               errs.ErWrongValueForType,
	"ErTableDefChanged":                                 errs.ErTableDefChanged,
	"ErSpDupHandler":                                    errs.ErSpDupHandler,
	"ErSpNotVarArg":                                     errs.ErSpNotVarArg,
	"ErSpNoRetset":                                      errs.ErSpNoRetset,
	"ErCantCreateGeometryObject":                        errs.ErCantCreateGeometryObject,
	"ErFailedRoutineBreakBinlog":                        errs.ErFailedRoutineBreakBinlog,
	"ErBinlogUnsafeRoutine":                             errs.ErBinlogUnsafeRoutine,
	"ErBinlogCreateRoutineNeedSuper":                    errs.ErBinlogCreateRoutineNeedSuper,
	"ErExecStmtWithOpenCursor":                          errs.ErExecStmtWithOpenCursor,
	"ErStmtHasNoOpenCursor":                             errs.ErStmtHasNoOpenCursor,
	"ErCommitNotAllowedInSfOrTrg":                       errs.ErCommitNotAllowedInSfOrTrg,
	"ErNoDefaultForViewField":                           errs.ErNoDefaultForViewField,
	"ErSpNoRecursion":                                   errs.ErSpNoRecursion,
	"ErTooBigScale":                                     errs.ErTooBigScale,
	"ErTooBigPrecision":                                 errs.ErTooBigPrecision,
	"ErMBiggerThanD":                                    errs.ErMBiggerThanD,
	"ErWrongLockOfSystemTable":                          errs.ErWrongLockOfSystemTable,
	"ErConnectToForeignDataSource":                      errs.ErConnectToForeignDataSource,
	"ErQueryOnForeignDataSource":                        errs.ErQueryOnForeignDataSource,
	"ErForeignDataSourceDoesntExist":                    errs.ErForeignDataSourceDoesntExist,
	"ErForeignDataStringInvalidCantCreate":              errs.ErForeignDataStringInvalidCantCreate,
	"ErForeignDataStringInvalid":                        errs.ErForeignDataStringInvalid,
	"ErCantCreateFederatedTable":                        errs.ErCantCreateFederatedTable,
	"ErTrgInWrongSchema":                                errs.ErTrgInWrongSchema,
	"ErStackOverrunNeedMore":                            errs.ErStackOverrunNeedMore,
	"ErTooLongBody":                                     errs.ErTooLongBody,
	"ErWarnCantDropDefaultKeycache":                     errs.ErWarnCantDropDefaultKeycache,
	"ErTooBigDisplaywidth":                              errs.ErTooBigDisplaywidth,
	"ErXaerDupid":                                       errs.ErXaerDupid,
	"ErDatetimeFunctionOverflow":                        errs.ErDatetimeFunctionOverflow,
	"ErCantUpdateUsedTableInSfOrTrg":                    errs.ErCantUpdateUsedTableInSfOrTrg,
	"ErViewPreventUpdate":                               errs.ErViewPreventUpdate,
	"ErPsNoRecursion":                                   errs.ErPsNoRecursion,
	"ErSpCantSetAutocommit":                             errs.ErSpCantSetAutocommit,
	"ErMalformedDefiner":                                errs.ErMalformedDefiner,
	"ErViewFrmNoUser":                                   errs.ErViewFrmNoUser,
	"ErViewOtherUser":                                   errs.ErViewOtherUser,
	"ErNoSuchUser":                                      errs.ErNoSuchUser,
	"ErForbidSchemaChange":                              errs.ErForbidSchemaChange,
	"ErRowIsReferenced2":                                errs.ErRowIsReferenced2,
	"ErNoReferencedRow2":                                errs.ErNoReferencedRow2,
	"ErSpBadVarShadow":                                  errs.ErSpBadVarShadow,
	"ErTrgNoDefiner":                                    errs.ErTrgNoDefiner,
	"ErOldFileFormat":                                   errs.ErOldFileFormat,
	"ErSpRecursionLimit":                                errs.ErSpRecursionLimit,
	"ErSpProcTableCorrupt":                              errs.ErSpProcTableCorrupt,
	"ErSpWrongName":                                     errs.ErSpWrongName,
	"ErTableNeedsUpgrade":                               errs.ErTableNeedsUpgrade,
	"ErSpNoAggregate":                                   errs.ErSpNoAggregate,
	"ErMaxPreparedStmtCountReached":                     errs.ErMaxPreparedStmtCountReached,
	"ErViewRecursive":                                   errs.ErViewRecursive,
	"ErNonGroupingFieldUsed":                            errs.ErNonGroupingFieldUsed,
	"ErTableCantHandleSpkeys":                           errs.ErTableCantHandleSpkeys,
	"ErNoTriggersOnSystemSchema":                        errs.ErNoTriggersOnSystemSchema,
	"ErRemovedSpaces":                                   errs.ErRemovedSpaces,
	"ErAutoincReadFailed":                               errs.ErAutoincReadFailed,
	"ErUsername":                                        errs.ErUsername,
	"ErHostname":                                        errs.ErHostname,
	"ErWrongStringLength":                               errs.ErWrongStringLength,
	"ErNonInsertableTable":                              errs.ErNonInsertableTable,
	"ErAdminWrongMrgTable":                              errs.ErAdminWrongMrgTable,
	"ErTooHighLevelOfNestingForSelect":                  errs.ErTooHighLevelOfNestingForSelect,
	"ErNameBecomesEmpty":                                errs.ErNameBecomesEmpty,
	"ErAmbiguousFieldTerm":                              errs.ErAmbiguousFieldTerm,
	"ErForeignServerExists":                             errs.ErForeignServerExists,
	"ErForeignServerDoesntExist":                        errs.ErForeignServerDoesntExist,
	"ErIllegalHaCreateOption":                           errs.ErIllegalHaCreateOption,
	"ErPartitionRequiresValuesError":                    errs.ErPartitionRequiresValuesError,
	"ErPartitionWrongValuesError":                       errs.ErPartitionWrongValuesError,
	"ErPartitionMaxvalueError":                          errs.ErPartitionMaxvalueError,
	"ErPartitionSubpartitionError":                      errs.ErPartitionSubpartitionError,
	"ErPartitionSubpartMixError":                        errs.ErPartitionSubpartMixError,
	"ErPartitionWrongNoPartError":                       errs.ErPartitionWrongNoPartError,
	"ErPartitionWrongNoSubpartError":                    errs.ErPartitionWrongNoSubpartError,
	"ErWrongExprInPartitionFuncError":                   errs.ErWrongExprInPartitionFuncError,
	"ErNoConstExprInRangeOrListError":                   errs.ErNoConstExprInRangeOrListError,
	"ErFieldNotFoundPartError":                          errs.ErFieldNotFoundPartError,
	"ErListOfFieldsOnlyInHashError":                     errs.ErListOfFieldsOnlyInHashError,
	"ErInconsistentPartitionInfoError":                  errs.ErInconsistentPartitionInfoError,
	"ErPartitionFuncNotAllowedError":                    errs.ErPartitionFuncNotAllowedError,
	"ErPartitionsMustBeDefinedError":                    errs.ErPartitionsMustBeDefinedError,
	"ErRangeNotIncreasingError":                         errs.ErRangeNotIncreasingError,
	"ErInconsistentTypeOfFunctionsError":                errs.ErInconsistentTypeOfFunctionsError,
	"ErMultipleDefConstInListPartError":                 errs.ErMultipleDefConstInListPartError,
	"ErPartitionEntryError":                             errs.ErPartitionEntryError,
	"ErMixHandlerError":                                 errs.ErMixHandlerError,
	"ErPartitionNotDefinedError":                        errs.ErPartitionNotDefinedError,
	"ErTooManyPartitionsError":                          errs.ErTooManyPartitionsError,
	"ErSubpartitionError":                               errs.ErSubpartitionError,
	"ErCantCreateHandlerFile":                           errs.ErCantCreateHandlerFile,
	"ErBlobFieldInPartFuncError":                        errs.ErBlobFieldInPartFuncError,
	"ErUniqueKeyNeedAllFieldsInPf":                      errs.ErUniqueKeyNeedAllFieldsInPf,
	"ErNoPartsError":                                    errs.ErNoPartsError,
	"ErPartitionMgmtOnNonpartitioned":                   errs.ErPartitionMgmtOnNonpartitioned,
	"ErForeignKeyOnPartitioned":                         errs.ErForeignKeyOnPartitioned,
	"ErDropPartitionNonExistent":                        errs.ErDropPartitionNonExistent,
	"ErDropLastPartition":                               errs.ErDropLastPartition,
	"ErCoalesceOnlyOnHashPartition":                     errs.ErCoalesceOnlyOnHashPartition,
	"ErReorgHashOnlyOnSameNo":                           errs.ErReorgHashOnlyOnSameNo,
	"ErReorgNoParamError":                               errs.ErReorgNoParamError,
	"ErOnlyOnRangeListPartition":                        errs.ErOnlyOnRangeListPartition,
	"ErAddPartitionSubpartError":                        errs.ErAddPartitionSubpartError,
	"ErAddPartitionNoNewPartition":                      errs.ErAddPartitionNoNewPartition,
	"ErCoalescePartitionNoPartition":                    errs.ErCoalescePartitionNoPartition,
	"ErReorgPartitionNotExist":                          errs.ErReorgPartitionNotExist,
	"ErSameNamePartition":                               errs.ErSameNamePartition,
	"ErNoBinlogError":                                   errs.ErNoBinlogError,
	"ErConsecutiveReorgPartitions":                      errs.ErConsecutiveReorgPartitions,
	"ErReorgOutsideRange":                               errs.ErReorgOutsideRange,
	"ErPartitionFunctionFailure":                        errs.ErPartitionFunctionFailure,
	"ErPartStateError":                                  errs.ErPartStateError,
	"ErLimitedPartRange":                                errs.ErLimitedPartRange,
	"ErPluginIsNotLoaded":                               errs.ErPluginIsNotLoaded,
	"ErWrongValue":                                      errs.ErWrongValue,
	"ErNoPartitionForGivenValue":                        errs.ErNoPartitionForGivenValue,
	"ErFilegroupOptionOnlyOnce":                         errs.ErFilegroupOptionOnlyOnce,
	"ErCreateFilegroupFailed":                           errs.ErCreateFilegroupFailed,
	"ErDropFilegroupFailed":                             errs.ErDropFilegroupFailed,
	"ErTablespaceAutoExtendError":                       errs.ErTablespaceAutoExtendError,
	"ErWrongSizeNumber":                                 errs.ErWrongSizeNumber,
	"ErSizeOverflowError":                               errs.ErSizeOverflowError,
	"ErAlterFilegroupFailed":                            errs.ErAlterFilegroupFailed,
	"ErBinlogRowLoggingFailed":                          errs.ErBinlogRowLoggingFailed,
	"ErBinlogRowWrongTableDef":                          errs.ErBinlogRowWrongTableDef,
	"ErBinlogRowRbrToSbr":                               errs.ErBinlogRowRbrToSbr,
	"ErEventAlreadyExists":                              errs.ErEventAlreadyExists,
	"ErEventStoreFailed":                                errs.ErEventStoreFailed,
	"ErEventDoesNotExist":                               errs.ErEventDoesNotExist,
	"ErEventCantAlter":                                  errs.ErEventCantAlter,
	"ErEventDropFailed":                                 errs.ErEventDropFailed,
	"ErEventIntervalNotPositiveOrTooBig":                errs.ErEventIntervalNotPositiveOrTooBig,
	"ErEventEndsBeforeStarts":                           errs.ErEventEndsBeforeStarts,
	"ErEventExecTimeInThePast":                          errs.ErEventExecTimeInThePast,
	"ErEventOpenTableFailed":                            errs.ErEventOpenTableFailed,
	"ErEventNeitherMExprNorMAt":                         errs.ErEventNeitherMExprNorMAt,
	"ErObsoleteColCountDoesntMatchCorrupted":            errs.ErObsoleteColCountDoesntMatchCorrupted,
	"ErObsoleteCannotLoadFromTable":                     errs.ErObsoleteCannotLoadFromTable,
	"ErEventCannotDelete":                               errs.ErEventCannotDelete,
	"ErEventCompileError":                               errs.ErEventCompileError,
	"ErEventSameName":                                   errs.ErEventSameName,
	"ErEventDataTooLong":                                errs.ErEventDataTooLong,
	"ErDropIndexFk":                                     errs.ErDropIndexFk,
	"ErWarnDeprecatedSyntaxWithVer":                     errs.ErWarnDeprecatedSyntaxWithVer,
	"ErCantWriteLockLogTable":                           errs.ErCantWriteLockLogTable,
	"ErCantLockLogTable":                                errs.ErCantLockLogTable,
	"ErForeignDuplicateKeyOldUnused":                    errs.ErForeignDuplicateKeyOldUnused,
	"ErColCountDoesntMatchPleaseUpdate":                 errs.ErColCountDoesntMatchPleaseUpdate,
	"ErTempTablePreventsSwitchOutOfRbr":                 errs.ErTempTablePreventsSwitchOutOfRbr,
	"ErStoredFunctionPreventsSwitchBinlogFormat":        errs.ErStoredFunctionPreventsSwitchBinlogFormat,
	"ErNdbCantSwitchBinlogFormat":                       errs.ErNdbCantSwitchBinlogFormat,
	"ErPartitionNoTemporary":                            errs.ErPartitionNoTemporary,
	"ErPartitionConstDomainError":                       errs.ErPartitionConstDomainError,
	"ErPartitionFunctionIsNotAllowed":                   errs.ErPartitionFunctionIsNotAllowed,
	"ErDdlLogError":                                     errs.ErDdlLogError,
	"ErNullInValuesLessThan":                            errs.ErNullInValuesLessThan,
	"ErWrongPartitionName":                              errs.ErWrongPartitionName,
	"ErCantChangeTxCharacteristics":                     errs.ErCantChangeTxCharacteristics,
	"ErDupEntryAutoincrementCase":                       errs.ErDupEntryAutoincrementCase,
	"ErEventModifyQueueError":                           errs.ErEventModifyQueueError,
	"ErEventSetVarError":                                errs.ErEventSetVarError,
	"ErPartitionMergeError":                             errs.ErPartitionMergeError,
	"ErCantActivateLog":                                 errs.ErCantActivateLog,
	"ErRbrNotAvailable":                                 errs.ErRbrNotAvailable,
	"ErBase64DecodeError":                               errs.ErBase64DecodeError,
	"ErEventRecursionForbidden":                         errs.ErEventRecursionForbidden,
	"ErEventsDbError":                                   errs.ErEventsDbError,
	"ErOnlyIntegersAllowed":                             errs.ErOnlyIntegersAllowed,
	"ErUnsuportedLogEngine":                             errs.ErUnsuportedLogEngine,
	"ErBadLogStatement":                                 errs.ErBadLogStatement,
	"ErCantRenameLogTable":                              errs.ErCantRenameLogTable,
	"ErWrongParamcountToNativeFct":                      errs.ErWrongParamcountToNativeFct,
	"ErWrongParametersToNativeFct":                      errs.ErWrongParametersToNativeFct,
	"ErWrongParametersToStoredFct":                      errs.ErWrongParametersToStoredFct,
	"ErNativeFctNameCollision":                          errs.ErNativeFctNameCollision,
	"ErDupEntryWithKeyName":                             errs.ErDupEntryWithKeyName,
	"ErBinlogPurgeEmfile":                               errs.ErBinlogPurgeEmfile,
	"ErEventCannotCreateInThePast":                      errs.ErEventCannotCreateInThePast,
	"ErEventCannotAlterInThePast":                       errs.ErEventCannotAlterInThePast,
	"ErSlaveIncident":                                   errs.ErSlaveIncident,
	"ErNoPartitionForGivenValueSilent":                  errs.ErNoPartitionForGivenValueSilent,
	"ErBinlogUnsafeStatement":                           errs.ErBinlogUnsafeStatement,
	"ErSlaveFatalError":                                 errs.ErSlaveFatalError,
	"ErSlaveRelayLogReadFailure":                        errs.ErSlaveRelayLogReadFailure,
	"ErSlaveRelayLogWriteFailure":                       errs.ErSlaveRelayLogWriteFailure,
	"ErSlaveCreateEventFailure":                         errs.ErSlaveCreateEventFailure,
	"ErSlaveMasterComFailure":                           errs.ErSlaveMasterComFailure,
	"ErBinlogLoggingImpossible":                         errs.ErBinlogLoggingImpossible,
	"ErViewNoCreationCtx":                               errs.ErViewNoCreationCtx,
	"ErViewInvalidCreationCtx":                          errs.ErViewInvalidCreationCtx,
	"ErSrInvalidCreationCtx":                            errs.ErSrInvalidCreationCtx,
	"ErTrgCorruptedFile":                                errs.ErTrgCorruptedFile,
	"ErTrgNoCreationCtx":                                errs.ErTrgNoCreationCtx,
	"ErTrgInvalidCreationCtx":                           errs.ErTrgInvalidCreationCtx,
	"ErEventInvalidCreationCtx":                         errs.ErEventInvalidCreationCtx,
	"ErTrgCantOpenTable":                                errs.ErTrgCantOpenTable,
	"ErCantCreateSroutine":                              errs.ErCantCreateSroutine,
	"ErNeverUsed":                                       errs.ErNeverUsed,
	"ErNoFormatDescriptionEventBeforeBinlogStatement":   errs.ErNoFormatDescriptionEventBeforeBinlogStatement,
	"ErSlaveCorruptEvent":                               errs.ErSlaveCorruptEvent,
	"ErLoadDataInvalidColumnUnused":                     errs.ErLoadDataInvalidColumnUnused,
	"ErLogPurgeNoFile":                                  errs.ErLogPurgeNoFile,
	"ErXaRbtimeout":                                     errs.ErXaRbtimeout,
	"ErXaRbdeadlock":                                    errs.ErXaRbdeadlock,
	"ErNeedReprepare":                                   errs.ErNeedReprepare,
	"ErDelayedNotSupported":                             errs.ErDelayedNotSupported,
	"WARNNoMasterInfo":                                  errs.WARNNoMasterInfo,
	"WARNOptionIgnored":                                 errs.WARNOptionIgnored,
	"ErPluginDeleteBuiltin":                             errs.ErPluginDeleteBuiltin,
	"WARNPluginBusy":                                    errs.WARNPluginBusy,
	"ErVariableIsReadonly":                              errs.ErVariableIsReadonly,
	"ErWarnEngineTransactionRollback":                   errs.ErWarnEngineTransactionRollback,
	"ErSlaveHeartbeatFailure":                           errs.ErSlaveHeartbeatFailure,
	"ErSlaveHeartbeatValueOutOfRange":                   errs.ErSlaveHeartbeatValueOutOfRange,
	"ErNdbReplicationSchemaError":                       errs.ErNdbReplicationSchemaError,
	"ErConflictFnParseError":                            errs.ErConflictFnParseError,
	"ErExceptionsWriteError":                            errs.ErExceptionsWriteError,
	"ErTooLongTableComment":                             errs.ErTooLongTableComment,
	"ErTooLongFieldComment":                             errs.ErTooLongFieldComment,
	"ErFuncInexistentNameCollision":                     errs.ErFuncInexistentNameCollision,
	"ErDatabaseName":                                    errs.ErDatabaseName,
	"ErTableName":                                       errs.ErTableName,
	"ErPartitionName":                                   errs.ErPartitionName,
	"ErSubpartitionName":                                errs.ErSubpartitionName,
	"ErTemporaryName":                                   errs.ErTemporaryName,
	"ErRenamedName":                                     errs.ErRenamedName,
	"ErTooManyConcurrentTrxs":                           errs.ErTooManyConcurrentTrxs,
	"WarnNonASCIISeparatorNotImplemented":               errs.WarnNonASCIISeparatorNotImplemented,
	"ErDebugSyncTimeout":                                errs.ErDebugSyncTimeout,
	"ErDebugSyncHitLimit":                               errs.ErDebugSyncHitLimit,
	"ErDupSignalSet":                                    errs.ErDupSignalSet,
	"ErSignalWarn":                                      errs.ErSignalWarn,
	"ErSignalNotFound":                                  errs.ErSignalNotFound,
	"ErSignalException":                                 errs.ErSignalException,
	"ErResignalWithoutActiveHandler":                    errs.ErResignalWithoutActiveHandler,
	"ErSignalBadConditionType":                          errs.ErSignalBadConditionType,
	"WarnCondItemTruncated":                             errs.WarnCondItemTruncated,
	"ErCondItemTooLong":                                 errs.ErCondItemTooLong,
	"ErUnknownLocale":                                   errs.ErUnknownLocale,
	"ErSlaveIgnoreServerIds":                            errs.ErSlaveIgnoreServerIds,
	"ErQueryCacheDisabled":                              errs.ErQueryCacheDisabled,
	"ErSameNamePartitionField":                          errs.ErSameNamePartitionField,
	"ErPartitionColumnListError":                        errs.ErPartitionColumnListError,
	"ErWrongTypeColumnValueError":                       errs.ErWrongTypeColumnValueError,
	"ErTooManyPartitionFuncFieldsError":                 errs.ErTooManyPartitionFuncFieldsError,
	"ErMaxvalueInValuesIn":                              errs.ErMaxvalueInValuesIn,
	"ErTooManyValuesError":                              errs.ErTooManyValuesError,
	"ErRowSinglePartitionFieldError":                    errs.ErRowSinglePartitionFieldError,
	"ErFieldTypeNotAllowedAsPartitionField":             errs.ErFieldTypeNotAllowedAsPartitionField,
	"ErPartitionFieldsTooLong":                          errs.ErPartitionFieldsTooLong,
	"ErBinlogRowEngineAndStmtEngine":                    errs.ErBinlogRowEngineAndStmtEngine,
	"ErBinlogRowModeAndStmtEngine":                      errs.ErBinlogRowModeAndStmtEngine,
	"ErBinlogUnsafeAndStmtEngine":                       errs.ErBinlogUnsafeAndStmtEngine,
	"ErBinlogRowInjectionAndStmtEngine":                 errs.ErBinlogRowInjectionAndStmtEngine,
	"ErBinlogStmtModeAndRowEngine":                      errs.ErBinlogStmtModeAndRowEngine,
	"ErBinlogRowInjectionAndStmtMode":                   errs.ErBinlogRowInjectionAndStmtMode,
	"ErBinlogMultipleEnginesAndSelfLoggingEngine":       errs.ErBinlogMultipleEnginesAndSelfLoggingEngine,
	"ErBinlogUnsafeLimit":                               errs.ErBinlogUnsafeLimit,
	"ErUnused4":                                         errs.ErUnused4,
	"ErBinlogUnsafeSystemTable":                         errs.ErBinlogUnsafeSystemTable,
	"ErBinlogUnsafeAutoincColumns":                      errs.ErBinlogUnsafeAutoincColumns,
	"ErBinlogUnsafeUdf":                                 errs.ErBinlogUnsafeUdf,
	"ErBinlogUnsafeSystemVariable":                      errs.ErBinlogUnsafeSystemVariable,
	"ErBinlogUnsafeSystemFunction":                      errs.ErBinlogUnsafeSystemFunction,
	"ErBinlogUnsafeNontransAfterTrans":                  errs.ErBinlogUnsafeNontransAfterTrans,
	"ErMessageAndStatement":                             errs.ErMessageAndStatement,
	"ErSlaveConversionFailed":                           errs.ErSlaveConversionFailed,
	"ErSlaveCantCreateConversion":                       errs.ErSlaveCantCreateConversion,
	"ErInsideTransactionPreventsSwitchBinlogFormat":     errs.ErInsideTransactionPreventsSwitchBinlogFormat,
	"ErPathLength":                                      errs.ErPathLength,
	"ErWarnDeprecatedSyntaxNoReplacement":               errs.ErWarnDeprecatedSyntaxNoReplacement,
	"ErWrongNativeTableStructure":                       errs.ErWrongNativeTableStructure,
	"ErWrongPerfschemaUsage":                            errs.ErWrongPerfschemaUsage,
	"ErWarnISSkippedTable":                              errs.ErWarnISSkippedTable,
	"ErInsideTransactionPreventsSwitchBinlogDirect":     errs.ErInsideTransactionPreventsSwitchBinlogDirect,
	"ErStoredFunctionPreventsSwitchBinlogDirect":        errs.ErStoredFunctionPreventsSwitchBinlogDirect,
	"ErSpatialMustHaveGeomCol":                          errs.ErSpatialMustHaveGeomCol,
	"ErTooLongIndexComment":                             errs.ErTooLongIndexComment,
	"ErLockAborted":                                     errs.ErLockAborted,
	"ErDataOutOfRange":                                  errs.ErDataOutOfRange,
	"ErWrongSpvarTypeInLimit":                           errs.ErWrongSpvarTypeInLimit,
	"ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine": errs.ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine,
	"ErBinlogUnsafeMixedStatement":                      errs.ErBinlogUnsafeMixedStatement,
	"ErInsideTransactionPreventsSwitchSQLLogBin":        errs.ErInsideTransactionPreventsSwitchSQLLogBin,
	"ErStoredFunctionPreventsSwitchSQLLogBin":           errs.ErStoredFunctionPreventsSwitchSQLLogBin,
	"ErFailedReadFromParFile":                           errs.ErFailedReadFromParFile,
	"ErValuesIsNotIntTypeError":                         errs.ErValuesIsNotIntTypeError,
	"ErAccessDeniedNoPasswordError":                     errs.ErAccessDeniedNoPasswordError,
	"ErSetPasswordAuthPlugin":                           errs.ErSetPasswordAuthPlugin,
	"ErGrantPluginUserExists":                           errs.ErGrantPluginUserExists,
	"ErTruncateIllegalFk":                               errs.ErTruncateIllegalFk,
	"ErPluginIsPermanent":                               errs.ErPluginIsPermanent,
	"ErSlaveHeartbeatValueOutOfRangeMin":                errs.ErSlaveHeartbeatValueOutOfRangeMin,
	"ErSlaveHeartbeatValueOutOfRangeMax":                errs.ErSlaveHeartbeatValueOutOfRangeMax,
	"ErStmtCacheFull":                                   errs.ErStmtCacheFull,
	"ErMultiUpdateKeyConflict":                          errs.ErMultiUpdateKeyConflict,
	"ErTableNeedsRebuild":                               errs.ErTableNeedsRebuild,
	"WARNOptionBelowLimit":                              errs.WARNOptionBelowLimit,
	"ErIndexColumnTooLong":                              errs.ErIndexColumnTooLong,
	"ErErrorInTriggerBody":                              errs.ErErrorInTriggerBody,
	"ErErrorInUnknownTriggerBody":                       errs.ErErrorInUnknownTriggerBody,
	"ErIndexCorrupt":                                    errs.ErIndexCorrupt,
	"ErUndoRecordTooBig":                                errs.ErUndoRecordTooBig,
	"ErBinlogUnsafeInsertIgnoreSelect":                  errs.ErBinlogUnsafeInsertIgnoreSelect,
	"ErBinlogUnsafeInsertSelectUpdate":                  errs.ErBinlogUnsafeInsertSelectUpdate,
	"ErBinlogUnsafeReplaceSelect":                       errs.ErBinlogUnsafeReplaceSelect,
	"ErBinlogUnsafeCreateIgnoreSelect":                  errs.ErBinlogUnsafeCreateIgnoreSelect,
	"ErBinlogUnsafeCreateReplaceSelect":                 errs.ErBinlogUnsafeCreateReplaceSelect,
	"ErBinlogUnsafeUpdateIgnore":                        errs.ErBinlogUnsafeUpdateIgnore,
	"ErPluginNoUninstall":                               errs.ErPluginNoUninstall,
	"ErPluginNoInstall":                                 errs.ErPluginNoInstall,
	"ErBinlogUnsafeWriteAutoincSelect":                  errs.ErBinlogUnsafeWriteAutoincSelect,
	"ErBinlogUnsafeCreateSelectAutoinc":                 errs.ErBinlogUnsafeCreateSelectAutoinc,
	"ErBinlogUnsafeInsertTwoKeys":                       errs.ErBinlogUnsafeInsertTwoKeys,
	"ErTableInFkCheck":                                  errs.ErTableInFkCheck,
	"ErUnsupportedEngine":                               errs.ErUnsupportedEngine,
	"ErBinlogUnsafeAutoincNotFirst":                     errs.ErBinlogUnsafeAutoincNotFirst,
	"ErCannotLoadFromTableV2":                           errs.ErCannotLoadFromTableV2,
	"ErMasterDelayValueOutOfRange":                      errs.ErMasterDelayValueOutOfRange,
	"ErOnlyFdAndRbrEventsAllowedInBinlogStatement":      errs.ErOnlyFdAndRbrEventsAllowedInBinlogStatement,
	"ErPartitionExchangeDifferentOption":                errs.ErPartitionExchangeDifferentOption,
	"ErPartitionExchangePartTable":                      errs.ErPartitionExchangePartTable,
	"ErPartitionExchangeTempTable":                      errs.ErPartitionExchangeTempTable,
	"ErPartitionInsteadOfSubpartition":                  errs.ErPartitionInsteadOfSubpartition,
	"ErUnknownPartition":                                errs.ErUnknownPartition,
	"ErTablesDifferentMetadata":                         errs.ErTablesDifferentMetadata,
	"ErRowDoesNotMatchPartition":                        errs.ErRowDoesNotMatchPartition,
	"ErBinlogCacheSizeGreaterThanMax":                   errs.ErBinlogCacheSizeGreaterThanMax,
	"ErWarnIndexNotApplicable":                          errs.ErWarnIndexNotApplicable,
	"ErPartitionExchangeForeignKey":                     errs.ErPartitionExchangeForeignKey,
	"ErNoSuchKeyValue":                                  errs.ErNoSuchKeyValue,
	"ErRplInfoDataTooLong":                              errs.ErRplInfoDataTooLong,
	"ErNetworkReadEventChecksumFailure":                 errs.ErNetworkReadEventChecksumFailure,
	"ErBinlogReadEventChecksumFailure":                  errs.ErBinlogReadEventChecksumFailure,
	"ErBinlogStmtCacheSizeGreaterThanMax":               errs.ErBinlogStmtCacheSizeGreaterThanMax,
	"ErCantUpdateTableInCreateTableSelect":              errs.ErCantUpdateTableInCreateTableSelect,
	"ErPartitionClauseOnNonpartitioned":                 errs.ErPartitionClauseOnNonpartitioned,
	"ErRowDoesNotMatchGivenPartitionSet":                errs.ErRowDoesNotMatchGivenPartitionSet,
	"ErNoSuchPartitionUnused":                           errs.ErNoSuchPartitionUnused,
	"ErChangeRplInfoRepositoryFailure":                  errs.ErChangeRplInfoRepositoryFailure,
	"ErWarningNotCompleteRollbackWithCreatedTempTable":  errs.ErWarningNotCompleteRollbackWithCreatedTempTable,
	"ErWarningNotCompleteRollbackWithDroppedTempTable":  errs.ErWarningNotCompleteRollbackWithDroppedTempTable,
	"ErMtsFeatureIsNotSupported":                        errs.ErMtsFeatureIsNotSupported,
	"ErMtsUpdatedDbsGreaterMax":                         errs.ErMtsUpdatedDbsGreaterMax,
	"ErMtsCantParallel":                                 errs.ErMtsCantParallel,
	"ErMtsInconsistentData":                             errs.ErMtsInconsistentData,
	"ErFulltextNotSupportedWithPartitioning":            errs.ErFulltextNotSupportedWithPartitioning,
	"ErDaInvalidConditionNumber":                        errs.ErDaInvalidConditionNumber,
	"ErInsecurePlainText":                               errs.ErInsecurePlainText,
	"ErInsecureChangeMaster":                            errs.ErInsecureChangeMaster,
	"ErForeignDuplicateKeyWithChildInfo":                errs.ErForeignDuplicateKeyWithChildInfo,
	"ErForeignDuplicateKeyWithoutChildInfo":             errs.ErForeignDuplicateKeyWithoutChildInfo,
	"ErSqlthreadWithSecureSlave":                        errs.ErSqlthreadWithSecureSlave,
	"ErTableHasNoFt":                                    errs.ErTableHasNoFt,
	"ErVariableNotSettableInSfOrTrigger":                errs.ErVariableNotSettableInSfOrTrigger,
	"ErVariableNotSettableInTransaction":                errs.ErVariableNotSettableInTransaction,
	"ErGTIDNextIsNotInGTIDNextList":                     errs.ErGTIDNextIsNotInGTIDNextList,
	"ErCantChangeGTIDNextInTransaction":                 errs.ErCantChangeGTIDNextInTransaction,
	"ErSetStatementCannotInvokeFunction":                errs.ErSetStatementCannotInvokeFunction,
	"ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull":  errs.ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull,
	"ErSkippingLoggedTransaction":                       errs.ErSkippingLoggedTransaction,
	"ErMalformedGTIDSetSpecification":                   errs.ErMalformedGTIDSetSpecification,
	"ErMalformedGTIDSetEncoding":                        errs.ErMalformedGTIDSetEncoding,
	"ErMalformedGTIDSpecification":                      errs.ErMalformedGTIDSpecification,
	"ErGnoExhausted":                                    errs.ErGnoExhausted,
	"ErBadSlaveAutoPosition":                            errs.ErBadSlaveAutoPosition,
	"ErAutoPositionRequiresGTIDModeNotOff":              errs.ErAutoPositionRequiresGTIDModeNotOff,
	"ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet":      errs.ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet,
	"ErGTIDModeOnRequiresEnforceGTIDConsistencyOn":      errs.ErGTIDModeOnRequiresEnforceGTIDConsistencyOn,
	"ErGTIDModeRequiresBinlog":                          errs.ErGTIDModeRequiresBinlog,
	"ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff":          errs.ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff,
	"ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn":      errs.ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn,
	"ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff":   errs.ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff,
	"ErFoundGTIDEventWhenGTIDModeIsOffUnused":           errs.ErFoundGTIDEventWhenGTIDModeIsOffUnused,
	"ErGTIDUnsafeNonTransactionalTable":                 errs.ErGTIDUnsafeNonTransactionalTable,
	"ErGTIDUnsafeCreateSelect":                          errs.ErGTIDUnsafeCreateSelect,
	"ErGTIDUnsafeCreateDropTemporaryTableInTransaction": errs.ErGTIDUnsafeCreateDropTemporaryTableInTransaction,
	"ErGTIDModeCanOnlyChangeOneStepAtATime":             errs.ErGTIDModeCanOnlyChangeOneStepAtATime,
	"ErMasterHasPurgedRequiredGTIDs":                    errs.ErMasterHasPurgedRequiredGTIDs,
	"ErCantSetGTIDNextWhenOwningGTID":                   errs.ErCantSetGTIDNextWhenOwningGTID,
	"ErUnknownExplainFormat":                            errs.ErUnknownExplainFormat,
	"ErCantExecuteInReadOnlyTransaction":                errs.ErCantExecuteInReadOnlyTransaction,
	"ErTooLongTablePartitionComment":                    errs.ErTooLongTablePartitionComment,
	"ErSlaveConfiguration":                              errs.ErSlaveConfiguration,
	"ErInnodbFtLimit":                                   errs.ErInnodbFtLimit,
	"ErInnodbNoFtTempTable":                             errs.ErInnodbNoFtTempTable,
	"ErInnodbFtWrongDocidColumn":                        errs.ErInnodbFtWrongDocidColumn,
	"ErInnodbFtWrongDocidIndex":                         errs.ErInnodbFtWrongDocidIndex,
	"ErInnodbOnlineLogTooBig":                           errs.ErInnodbOnlineLogTooBig,
	"ErUnknownAlterAlgorithm":                           errs.ErUnknownAlterAlgorithm,
	"ErUnknownAlterLock":                                errs.ErUnknownAlterLock,
	"ErMtsChangeMasterCantRunWithGaps":                  errs.ErMtsChangeMasterCantRunWithGaps,
	"ErMtsRecoveryFailure":                              errs.ErMtsRecoveryFailure,
	"ErMtsResetWorkers":                                 errs.ErMtsResetWorkers,
	"ErColCountDoesntMatchCorruptedV2":                  errs.ErColCountDoesntMatchCorruptedV2,
	"ErSlaveSilentRetryTransaction":                     errs.ErSlaveSilentRetryTransaction,
	"ErDiscardFkChecksRunning":                          errs.ErDiscardFkChecksRunning,
	"ErTableSchemaMismatch":                             errs.ErTableSchemaMismatch,
	"ErTableInSystemTablespace":                         errs.ErTableInSystemTablespace,
	"ErIoReadError":                                     errs.ErIoReadError,
	"ErIoWriteError":                                    errs.ErIoWriteError,
	"ErTablespaceMissing":                               errs.ErTablespaceMissing,
	"ErTablespaceExists":                                errs.ErTablespaceExists,
	"ErTablespaceDiscarded":                             errs.ErTablespaceDiscarded,
	"ErInternalError":                                   errs.ErInternalError,
	"ErInnodbImportError":                               errs.ErInnodbImportError,
	"ErInnodbIndexCorrupt":                              errs.ErInnodbIndexCorrupt,
	"ErInvalidYearColumnLength":                         errs.ErInvalidYearColumnLength,
	"ErNotValidPassword":                                errs.ErNotValidPassword,
	"ErMustChangePassword":                              errs.ErMustChangePassword,
	"ErFkNoIndexChild":                                  errs.ErFkNoIndexChild,
	"ErFkNoIndexParent":                                 errs.ErFkNoIndexParent,
	"ErFkFailAddSystem":                                 errs.ErFkFailAddSystem,
	"ErFkCannotOpenParent":                              errs.ErFkCannotOpenParent,
	"ErFkIncorrectOption":                               errs.ErFkIncorrectOption,
	"ErFkDupName":                                       errs.ErFkDupName,
	"ErPasswordFormat":                                  errs.ErPasswordFormat,
	"ErFkColumnCannotDrop":                              errs.ErFkColumnCannotDrop,
	"ErFkColumnCannotDropChild":                         errs.ErFkColumnCannotDropChild,
	"ErFkColumnNotNull":                                 errs.ErFkColumnNotNull,
	"ErDupIndex":                                        errs.ErDupIndex,
	"ErFkColumnCannotChange":                            errs.ErFkColumnCannotChange,
	"ErFkColumnCannotChangeChild":                       errs.ErFkColumnCannotChangeChild,
	"ErUnused5":                                         errs.ErUnused5,
	"ErMalformedPacket":                                 errs.ErMalformedPacket,
	"ErReadOnlyMode":                                    errs.ErReadOnlyMode,
	"ErGTIDNextTypeUndefinedGroup":                      errs.ErGTIDNextTypeUndefinedGroup,
	"ErVariableNotSettableInSp":                         errs.ErVariableNotSettableInSp,
	"ErCantSetGTIDPurgedWhenGTIDModeIsOff":              errs.ErCantSetGTIDPurgedWhenGTIDModeIsOff,
	"ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty":     errs.ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty,
	"ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty":       errs.ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty,
	"ErGTIDPurgedWasChanged":                            errs.ErGTIDPurgedWasChanged,
	"ErGTIDExecutedWasChanged":                          errs.ErGTIDExecutedWasChanged,
	"ErBinlogStmtModeAndNoReplTables":                   errs.ErBinlogStmtModeAndNoReplTables,
	"ErAlterOperationNotSupported":                      errs.ErAlterOperationNotSupported,
	"ErAlterOperationNotSupportedReason":                errs.ErAlterOperationNotSupportedReason,
	"ErAlterOperationNotSupportedReasonCopy":            errs.ErAlterOperationNotSupportedReasonCopy,
	"ErAlterOperationNotSupportedReasonPartition":       errs.ErAlterOperationNotSupportedReasonPartition,
	"ErAlterOperationNotSupportedReasonFkRename":        errs.ErAlterOperationNotSupportedReasonFkRename,
	"ErAlterOperationNotSupportedReasonColumnType":      errs.ErAlterOperationNotSupportedReasonColumnType,
	"ErAlterOperationNotSupportedReasonFkCheck":         errs.ErAlterOperationNotSupportedReasonFkCheck,
	"ErUnused6":                                         errs.ErUnused6,
	"ErAlterOperationNotSupportedReasonNopk":            errs.ErAlterOperationNotSupportedReasonNopk,
	"ErAlterOperationNotSupportedReasonAutoinc":         errs.ErAlterOperationNotSupportedReasonAutoinc,
	"ErAlterOperationNotSupportedReasonHiddenFts":       errs.ErAlterOperationNotSupportedReasonHiddenFts,
	"ErAlterOperationNotSupportedReasonChangeFts":       errs.ErAlterOperationNotSupportedReasonChangeFts,
	"ErAlterOperationNotSupportedReasonFts":             errs.ErAlterOperationNotSupportedReasonFts,
	"ErSQLSlaveSkipCounterNotSettableInGTIDMode":        errs.ErSQLSlaveSkipCounterNotSettableInGTIDMode,
	"ErDupUnknownInIndex":                               errs.ErDupUnknownInIndex,
	"ErIdentCausesTooLongPath":                          errs.ErIdentCausesTooLongPath,
	"ErAlterOperationNotSupportedReasonNotNull":         errs.ErAlterOperationNotSupportedReasonNotNull,
	"ErMustChangePasswordLogin":                         errs.ErMustChangePasswordLogin,
	"ErRowInWrongPartition":                             errs.ErRowInWrongPartition,
	"ErMtsEventBiggerPendingJobsSizeMax":                errs.ErMtsEventBiggerPendingJobsSizeMax,
	"ErInnodbNoFtUsesParser":                            errs.ErInnodbNoFtUsesParser,
	"ErBinlogLogicalCorruption":                         errs.ErBinlogLogicalCorruption,
	"ErWarnPurgeLogInUse":                               errs.ErWarnPurgeLogInUse,
	"ErWarnPurgeLogIsActive":                            errs.ErWarnPurgeLogIsActive,
	"ErAutoIncrementConflict":                           errs.ErAutoIncrementConflict,
	"WARNOnBlockholeInRbr":                              errs.WARNOnBlockholeInRbr,
	"ErSlaveMiInitRepository":                           errs.ErSlaveMiInitRepository,
	"ErSlaveRliInitRepository":                          errs.ErSlaveRliInitRepository,
	"ErAccessDeniedChangeUserError":                     errs.ErAccessDeniedChangeUserError,
	"ErInnodbReadOnly":                                  errs.ErInnodbReadOnly,
	"ErStopSlaveSQLThreadTimeout":                       errs.ErStopSlaveSQLThreadTimeout,
	"ErStopSlaveIoThreadTimeout":                        errs.ErStopSlaveIoThreadTimeout,
	"ErTableCorrupt":                                    errs.ErTableCorrupt,
	"ErTempFileWriteFailure":                            errs.ErTempFileWriteFailure,
	"ErInnodbFtAuxNotHexID":                             errs.ErInnodbFtAuxNotHexID,
	"ErOldTemporalsUpgraded":                            errs.ErOldTemporalsUpgraded,
	"ErInnodbForcedRecovery":                            errs.ErInnodbForcedRecovery,
	"ErAesInvalidIv":                                    errs.ErAesInvalidIv,
	"ErPluginCannotBeUninstalled":                       errs.ErPluginCannotBeUninstalled,
	"ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup": errs.ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup,
	"ErSlaveHasMoreGTIDsThanMaster":                     errs.ErSlaveHasMoreGTIDsThanMaster,
	"ErFileCorrupt":                                     errs.ErFileCorrupt,
	"ErErrorOnMaster":                                   errs.ErErrorOnMaster,
	"ErInconsistentError":                               errs.ErInconsistentError,
	"ErStorageEngineNotLoaded":                          errs.ErStorageEngineNotLoaded,
	"ErGetStackedDaWithoutActiveHandler":                errs.ErGetStackedDaWithoutActiveHandler,
	"ErWarnLegacySyntaxConverted":                       errs.ErWarnLegacySyntaxConverted,
	"ErBinlogUnsafeFulltextPlugin":                      errs.ErBinlogUnsafeFulltextPlugin,
	"ErCannotDiscardTemporaryTable":                     errs.ErCannotDiscardTemporaryTable,
	"ErFkDepthExceeded":                                 errs.ErFkDepthExceeded,
	"ErColCountDoesntMatchPleaseUpdateV2":               errs.ErColCountDoesntMatchPleaseUpdateV2,
	"ErWarnTriggerDoesntHaveCreated":                    errs.ErWarnTriggerDoesntHaveCreated,
	"ErReferencedTrgDoesNotExist":                       errs.ErReferencedTrgDoesNotExist,
	"ErExplainNotSupported":                             errs.ErExplainNotSupported,
	"ErInvalidFieldSize":                                errs.ErInvalidFieldSize,
	"ErMissingHaCreateOption":                           errs.ErMissingHaCreateOption,
	"ErEngineOutOfMemory":                               errs.ErEngineOutOfMemory,
	"ErPasswordExpireAnonymousUser":                     errs.ErPasswordExpireAnonymousUser,
	"ErSlaveSQLThreadMustStop":                          errs.ErSlaveSQLThreadMustStop,
	"ErNoFtMaterializedSubquery":                        errs.ErNoFtMaterializedSubquery,
	"ErInnodbUndoLogFull":                               errs.ErInnodbUndoLogFull,
	"ErInvalidArgumentForLogarithm":                     errs.ErInvalidArgumentForLogarithm,
	"ErSlaveChannelIoThreadMustStop":                    errs.ErSlaveChannelIoThreadMustStop,
	"ErWarnOpenTempTablesMustBeZero":                    errs.ErWarnOpenTempTablesMustBeZero,
	"ErWarnOnlyMasterLogFileNoPos":                      errs.ErWarnOnlyMasterLogFileNoPos,
	"ErQueryTimeout":                                    errs.ErQueryTimeout,
	"ErNonRoSelectDisableTimer":                         errs.ErNonRoSelectDisableTimer,
	"ErDupListEntry":                                    errs.ErDupListEntry,
	"ErSQLModeNoEffect":                                 errs.ErSQLModeNoEffect,
	"ErAggregateOrderForUnion":                          errs.ErAggregateOrderForUnion,
	"ErAggregateOrderNonAggQuery":                       errs.ErAggregateOrderNonAggQuery,
	"ErSlaveWorkerStoppedPreviousThdError":              errs.ErSlaveWorkerStoppedPreviousThdError,
	"ErDontSupportSlavePreserveCommitOrder":             errs.ErDontSupportSlavePreserveCommitOrder,
	"ErServerOfflineMode":                               errs.ErServerOfflineMode,
	"ErGisDifferentSrids":                               errs.ErGisDifferentSrids,
	"ErGisUnsupportedArgument":                          errs.ErGisUnsupportedArgument,
	"ErGisUnknownError":                                 errs.ErGisUnknownError,
	"ErGisUnknownException":                             errs.ErGisUnknownException,
	"ErGisInvalidData":                                  errs.ErGisInvalidData,
	"ErBoostGeometryEmptyInputException":                errs.ErBoostGeometryEmptyInputException,
	"ErBoostGeometryCentroidException":                  errs.ErBoostGeometryCentroidException,
	"ErBoostGeometryOverlayInvalidInputException":       errs.ErBoostGeometryOverlayInvalidInputException,
	"ErBoostGeometryTurnInfoException":                  errs.ErBoostGeometryTurnInfoException,
	"ErBoostGeometrySelfIntersectionPointException":     errs.ErBoostGeometrySelfIntersectionPointException,
	"ErBoostGeometryUnknownException":                   errs.ErBoostGeometryUnknownException,
	"ErStdBadAllocError":                                errs.ErStdBadAllocError,
	"ErStdDomainError":                                  errs.ErStdDomainError,
	"ErStdLengthError":                                  errs.ErStdLengthError,
	"ErStdInvalidArgument":                              errs.ErStdInvalidArgument,
	"ErStdOutOfRangeError":                              errs.ErStdOutOfRangeError,
	"ErStdOverflowError":                                errs.ErStdOverflowError,
	"ErStdRangeError":                                   errs.ErStdRangeError,
	"ErStdUnderflowError":                               errs.ErStdUnderflowError,
	"ErStdLogicError":                                   errs.ErStdLogicError,
	"ErStdRuntimeError":                                 errs.ErStdRuntimeError,
	"ErStdUnknownException":                             errs.ErStdUnknownException,
	"ErGisDataWrongEndianess":                           errs.ErGisDataWrongEndianess,
	"ErChangeMasterPasswordLength":                      errs.ErChangeMasterPasswordLength,
	"ErUserLockWrongName":                               errs.ErUserLockWrongName,
	"ErUserLockDeadlock":                                errs.ErUserLockDeadlock,
	"ErReplaceInaccessibleRows":                         errs.ErReplaceInaccessibleRows,
	"ErAlterOperationNotSupportedReasonGis":             errs.ErAlterOperationNotSupportedReasonGis,
	"ErIllegalUserVar":                                  errs.ErIllegalUserVar,
	"ErGTIDModeOff":                                     errs.ErGTIDModeOff,
	"ErUnsupportedByReplicationThread":                  errs.ErUnsupportedByReplicationThread,
	"ErIncorrectType":                                   errs.ErIncorrectType,
	"ErFieldInOrderNotSelect":                           errs.ErFieldInOrderNotSelect,
	"ErAggregateInOrderNotSelect":                       errs.ErAggregateInOrderNotSelect,
	"ErInvalidRplWildTableFilterPattern":                errs.ErInvalidRplWildTableFilterPattern,
	"ErNetOkPacketTooLarge":                             errs.ErNetOkPacketTooLarge,
	"ErInvalidJSONData":                                 errs.ErInvalidJSONData,
	"ErInvalidGeojsonMissingMember":                     errs.ErInvalidGeojsonMissingMember,
	"ErInvalidGeojsonWrongType":                         errs.ErInvalidGeojsonWrongType,
	"ErInvalidGeojsonUnspecified":                       errs.ErInvalidGeojsonUnspecified,
	"ErDimensionUnsupported":                            errs.ErDimensionUnsupported,
	"ErSlaveChannelDoesNotExist":                        errs.ErSlaveChannelDoesNotExist,
	"ErSlaveMultipleChannelsHostPort":                   errs.ErSlaveMultipleChannelsHostPort,
	"ErSlaveChannelNameInvalidOrTooLong":                errs.ErSlaveChannelNameInvalidOrTooLong,
	"ErSlaveNewChannelWrongRepository":                  errs.ErSlaveNewChannelWrongRepository,
	"ErSlaveChannelDelete":                              errs.ErSlaveChannelDelete,
	"ErSlaveMultipleChannelsCmd":                        errs.ErSlaveMultipleChannelsCmd,
	"ErSlaveMaxChannelsExceeded":                        errs.ErSlaveMaxChannelsExceeded,
	"ErSlaveChannelMustStop":                            errs.ErSlaveChannelMustStop,
	"ErSlaveChannelNotRunning":                          errs.ErSlaveChannelNotRunning,
	"ErSlaveChannelWasRunning":                          errs.ErSlaveChannelWasRunning,
	"ErSlaveChannelWasNotRunning":                       errs.ErSlaveChannelWasNotRunning,
	"ErSlaveChannelSQLThreadMustStop":                   errs.ErSlaveChannelSQLThreadMustStop,
	"ErSlaveChannelSQLSkipCounter":                      errs.ErSlaveChannelSQLSkipCounter,
	"ErWrongFieldWithGroupV2":                           errs.ErWrongFieldWithGroupV2,
	"ErMixOfGroupFuncAndFieldsV2":                       errs.ErMixOfGroupFuncAndFieldsV2,
	"ErWarnDeprecatedSysvarUpdate":                      errs.ErWarnDeprecatedSysvarUpdate,
	"ErWarnDeprecatedSqlmode":                           errs.ErWarnDeprecatedSqlmode,
	"ErCannotLogPartialDropDatabaseWithGTID":            errs.ErCannotLogPartialDropDatabaseWithGTID,
	"ErGroupReplicationConfiguration":                   errs.ErGroupReplicationConfiguration,
	"ErGroupReplicationRunning":                         errs.ErGroupReplicationRunning,
	"ErGroupReplicationApplierInitError":                errs.ErGroupReplicationApplierInitError,
	"ErGroupReplicationStopApplierThreadTimeout":        errs.ErGroupReplicationStopApplierThreadTimeout,
	"ErGroupReplicationCommunicationLayerSessionError":  errs.ErGroupReplicationCommunicationLayerSessionError,
	"ErGroupReplicationCommunicationLayerJoinError":     errs.ErGroupReplicationCommunicationLayerJoinError,
	"ErBeforeDmlValidationError":                        errs.ErBeforeDmlValidationError,
	"ErPreventsVariableWithoutRbr":                      errs.ErPreventsVariableWithoutRbr,
	"ErRunHookError":                                    errs.ErRunHookError,
	"ErTransactionRollbackDuringCommit":                 errs.ErTransactionRollbackDuringCommit,
	"ErGeneratedColumnFunctionIsNotAllowed":             errs.ErGeneratedColumnFunctionIsNotAllowed,
	"ErUnsupportedAlterInplaceOnVirtualColumn":          errs.ErUnsupportedAlterInplaceOnVirtualColumn,
	"ErWrongFkOptionForGeneratedColumn":                 errs.ErWrongFkOptionForGeneratedColumn,
	"ErNonDefaultValueForGeneratedColumn":               errs.ErNonDefaultValueForGeneratedColumn,
	"ErUnsupportedActionOnGeneratedColumn":              errs.ErUnsupportedActionOnGeneratedColumn,
	"ErGeneratedColumnNonPrior":                         errs.ErGeneratedColumnNonPrior,
	"ErDependentByGeneratedColumn":                      errs.ErDependentByGeneratedColumn,
	"ErGeneratedColumnRefAutoInc":                       errs.ErGeneratedColumnRefAutoInc,
	"ErFeatureNotAvailable":                             errs.ErFeatureNotAvailable,
	"ErCantSetGTIDMode":                                 errs.ErCantSetGTIDMode,
	"ErCantUseAutoPositionWithGTIDModeOff":              errs.ErCantUseAutoPositionWithGTIDModeOff,
	"ErCantReplicateAnonymousWithAutoPosition":          errs.ErCantReplicateAnonymousWithAutoPosition,
	"ErCantReplicateAnonymousWithGTIDModeOn":            errs.ErCantReplicateAnonymousWithGTIDModeOn,
	"ErCantReplicateGTIDWithGTIDModeOff":                errs.ErCantReplicateGTIDWithGTIDModeOff,
	"ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions": errs.ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions,
	"ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions":   errs.ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions,
	"ErAccountHasBeenLocked":                       errs.ErAccountHasBeenLocked,
	"ErWrongTablespaceName":                        errs.ErWrongTablespaceName,
	"ErTablespaceIsNotEmpty":                       errs.ErTablespaceIsNotEmpty,
	"ErWrongFileName":                              errs.ErWrongFileName,
	"ErBoostGeometryInconsistentTurnsException":    errs.ErBoostGeometryInconsistentTurnsException,
	"ErWarnOptimizerHintSyntaxError":               errs.ErWarnOptimizerHintSyntaxError,
	"ErWarnBadMaxExecutionTime":                    errs.ErWarnBadMaxExecutionTime,
	"ErWarnUnsupportedMaxExecutionTime":            errs.ErWarnUnsupportedMaxExecutionTime,
	"ErWarnConflictingHint":                        errs.ErWarnConflictingHint,
	"ErWarnUnknownQbName":                          errs.ErWarnUnknownQbName,
	"ErUnresolvedHintName":                         errs.ErUnresolvedHintName,
	"ErWarnOnModifyingGTIDExecutedTable":           errs.ErWarnOnModifyingGTIDExecutedTable,
	"ErPluggableProtocolCommandNotSupported":       errs.ErPluggableProtocolCommandNotSupported,
	"ErLockingServiceWrongName":                    errs.ErLockingServiceWrongName,
	"ErLockingServiceDeadlock":                     errs.ErLockingServiceDeadlock,
	"ErLockingServiceTimeout":                      errs.ErLockingServiceTimeout,
	"ErGisMaxPointsInGeometryOverflowed":           errs.ErGisMaxPointsInGeometryOverflowed,
	"ErSQLModeMerged":                              errs.ErSQLModeMerged,
	"ErVtokenPluginTokenMismatch":                  errs.ErVtokenPluginTokenMismatch,
	"ErVtokenPluginTokenNotFound":                  errs.ErVtokenPluginTokenNotFound,
	"ErCantSetVariableWhenOwningGTID":              errs.ErCantSetVariableWhenOwningGTID,
	"ErSlaveChannelOperationNotAllowed":            errs.ErSlaveChannelOperationNotAllowed,
	"ErInvalidJSONText":                            errs.ErInvalidJSONText,
	"ErInvalidJSONTextInParam":                     errs.ErInvalidJSONTextInParam,
	"ErInvalidJSONBinaryData":                      errs.ErInvalidJSONBinaryData,
	"ErInvalidJSONPath":                            errs.ErInvalidJSONPath,
	"ErInvalidJSONCharset":                         errs.ErInvalidJSONCharset,
	"ErInvalidJSONCharsetInFunction":               errs.ErInvalidJSONCharsetInFunction,
	"ErInvalidTypeForJSON":                         errs.ErInvalidTypeForJSON,
	"ErInvalidCastToJSON":                          errs.ErInvalidCastToJSON,
	"ErInvalidJSONPathCharset":                     errs.ErInvalidJSONPathCharset,
	"ErInvalidJSONPathWildcard":                    errs.ErInvalidJSONPathWildcard,
	"ErJSONValueTooBig":                            errs.ErJSONValueTooBig,
	"ErJSONKeyTooBig":                              errs.ErJSONKeyTooBig,
	"ErJSONUsedAsKey":                              errs.ErJSONUsedAsKey,
	"ErJSONVacuousPath":                            errs.ErJSONVacuousPath,
	"ErJSONBadOneOrAllArg":                         errs.ErJSONBadOneOrAllArg,
	"ErNumericJSONValueOutOfRange":                 errs.ErNumericJSONValueOutOfRange,
	"ErInvalidJSONValueForCast":                    errs.ErInvalidJSONValueForCast,
	"ErJSONDocumentTooDeep":                        errs.ErJSONDocumentTooDeep,
	"ErJSONDocumentNullKey":                        errs.ErJSONDocumentNullKey,
	"ErSecureTransportRequired":                    errs.ErSecureTransportRequired,
	"ErNoSecureTransportsConfigured":               errs.ErNoSecureTransportsConfigured,
	"ErDisabledStorageEngine":                      errs.ErDisabledStorageEngine,
	"ErUserDoesNotExist":                           errs.ErUserDoesNotExist,
	"ErUserAlreadyExists":                          errs.ErUserAlreadyExists,
	"ErAuditAPIAbort":                              errs.ErAuditAPIAbort,
	"ErInvalidJSONPathArrayCell":                   errs.ErInvalidJSONPathArrayCell,
	"ErBufpoolResizeInprogress":                    errs.ErBufpoolResizeInprogress,
	"ErFeatureDisabledSeeDoc":                      errs.ErFeatureDisabledSeeDoc,
	"ErServerIsntAvailable":                        errs.ErServerIsntAvailable,
	"ErSessionWasKilled":                           errs.ErSessionWasKilled,
	"ErCapacityExceeded":                           errs.ErCapacityExceeded,
	"ErCapacityExceededInRangeOptimizer":           errs.ErCapacityExceededInRangeOptimizer,
	"ErTableNeedsUpgPart":                          errs.ErTableNeedsUpgPart,
	"ErCantWaitForExecutedGTIDSetWhileOwningAGTID": errs.ErCantWaitForExecutedGTIDSetWhileOwningAGTID,
	"ErCannotAddForeignBaseColVirtual":             errs.ErCannotAddForeignBaseColVirtual,
	"ErCannotCreateVirtualIndexConstraint":         errs.ErCannotCreateVirtualIndexConstraint,
	"ErErrorOnModifyingGTIDExecutedTable":          errs.ErErrorOnModifyingGTIDExecutedTable,
	"ErLockRefusedByEngine":                        errs.ErLockRefusedByEngine,
	"ErUnsupportedAlterOnlineOnVirtualColumn":      errs.ErUnsupportedAlterOnlineOnVirtualColumn,
	"ErMasterKeyRotationNotSupportedBySe":          errs.ErMasterKeyRotationNotSupportedBySe,
	"ErMasterKeyRotationErrorBySe":                 errs.ErMasterKeyRotationErrorBySe,
	"ErMasterKeyRotationBinlogFailed":              errs.ErMasterKeyRotationBinlogFailed,
	"ErMasterKeyRotationSeUnavailable":             errs.ErMasterKeyRotationSeUnavailable,
	"ErTablespaceCannotEncrypt":                    errs.ErTablespaceCannotEncrypt,
	"ErInvalidEncryptionOption":                    errs.ErInvalidEncryptionOption,
	"ErCannotFindKeyInKeyring":                     errs.ErCannotFindKeyInKeyring,
	"ErCapacityExceededInParser":                   errs.ErCapacityExceededInParser,
	"ErUnsupportedAlterEncryptionInplace":          errs.ErUnsupportedAlterEncryptionInplace,
	"ErKeyringUdfKeyringServiceError":              errs.ErKeyringUdfKeyringServiceError,
	"ErUserColumnOldLength":                        errs.ErUserColumnOldLength,
	"ErXServiceError":                              errs.ErXServiceError,
	"ErXSession":                                   errs.ErXSession,
	"ErXInvalidArgument":                           errs.ErXInvalidArgument,
	"ErXMissingArgument":                           errs.ErXMissingArgument,
	"ErXBadInsertData":                             errs.ErXBadInsertData,
	"ErXCmdNumArguments":                           errs.ErXCmdNumArguments,
	"ErXCmdArgumentType":                           errs.ErXCmdArgumentType,
	"ErXCmdArgumentTVale":                          errs.ErXCmdArgumentTVale,
	"ErXBadUpsertData":                             errs.ErXBadUpsertData,
	"ErXBadUpdateData":                             errs.ErXBadUpdateData,
	"ErXBadTypeOfUpdate":                           errs.ErXBadTypeOfUpdate,
	"ErXBadColumnToUpdate":                         errs.ErXBadColumnToUpdate,
	"ErXBadMemberToUpdate":                         errs.ErXBadMemberToUpdate,
	"ErXBadStatementID":                            errs.ErXBadStatementID,
	"ErXBadCursorID":                               errs.ErXBadCursorID,
	"ErXBadSchema":                                 errs.ErXBadSchema,
	"ErXBadTable":                                  errs.ErXBadTable,
	"ErXBadProjection":                             errs.ErXBadProjection,
	"ErXDocIDMissing":                              errs.ErXDocIDMissing,
	"ErXDocIDDuplicate":                            errs.ErXDocIDDuplicate,
	"ErXDocRequiredFieldMissing":                   errs.ErXDocRequiredFieldMissing,
	"ErXProjBadKeyName":                            errs.ErXProjBadKeyName,
	"ErXBadDocPath":                                errs.ErXBadDocPath,
	"ErXCursorExists":                              errs.ErXCursorExists,
	"ErXCursorReachedEOF":                          errs.ErXCursorReachedEOF,
	"ErXPreparedStatementCanHaveOnCursor":          errs.ErXPreparedStatementCanHaveOnCursor,
	"ErXPreparedExecuteArgumentNotSupported":       errs.ErXPreparedExecuteArgumentNotSupported,
	"ErXPreparedExecuteArgumentConsistency":        errs.ErXPreparedExecuteArgumentConsistency,
	"ErXExprBadOperator":                           errs.ErXExprBadOperator,
	"ErXExprBadNumArgs":                            errs.ErXExprBadNumArgs,
	"ErXExprMissingArg":                            errs.ErXExprMissingArg,
	"ErXExprBadTypeValue":                          errs.ErXExprBadTypeValue,
	"ErXExprBadValue":                              errs.ErXExprBadValue,
	"ErXInvalidCollection":                         errs.ErXInvalidCollection,
	"ErXInvalidAdminCommand":                       errs.ErXInvalidAdminCommand,
	"ErXExpectNotOpen":                             errs.ErXExpectNotOpen,
	"ErXExpectNoErrorFailed":                       errs.ErXExpectNoErrorFailed,
	"ErXExpectBadCondition":                        errs.ErXExpectBadCondition,
	"ErXExpectBadConditionValue":                   errs.ErXExpectBadConditionValue,
	"ErXInvalidNamespace":                          errs.ErXInvalidNamespace,
	"ErXBadNotice":                                 errs.ErXBadNotice,
	"ErXCannotDisableNotice":                       errs.ErXCannotDisableNotice,
	"ErXBadConfiguration":                          errs.ErXBadConfiguration,
	"ErXMySQLXAaccountMissingPermissions":          errs.ErXMySQLXAaccountMissingPermissions,
	"ErXExpectFieldExistsFailed":                   errs.ErXExpectFieldExistsFailed,
	"ErXBadLocking":                                errs.ErXBadLocking,
}
