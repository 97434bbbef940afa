package main

import "github.com/jchv/cleansheets/ecmascript/lexer"

// kindNames holds the name of every kind of token, as declared.
var kindNames = map[lexer.TokenType]string{
	lexer.TokenNone:                           "TokenNone",
	lexer.TokenIdentifier:                     "TokenIdentifier",
	lexer.TokenPrivateIdentifier:              "TokenPrivateIdentifier",
	lexer.TokenKeywordAs:                      "TokenKeywordAs",
	lexer.TokenKeywordAsync:                   "TokenKeywordAsync",
	lexer.TokenKeywordAwait:                   "TokenKeywordAwait",
	lexer.TokenKeywordBreak:                   "TokenKeywordBreak",
	lexer.TokenKeywordCase:                    "TokenKeywordCase",
	lexer.TokenKeywordCatch:                   "TokenKeywordCatch",
	lexer.TokenKeywordClass:                   "TokenKeywordClass",
	lexer.TokenKeywordConst:                   "TokenKeywordConst",
	lexer.TokenKeywordContinue:                "TokenKeywordContinue",
	lexer.TokenKeywordDebugger:                "TokenKeywordDebugger",
	lexer.TokenKeywordDefault:                 "TokenKeywordDefault",
	lexer.TokenKeywordDelete:                  "TokenKeywordDelete",
	lexer.TokenKeywordDo:                      "TokenKeywordDo",
	lexer.TokenKeywordElse:                    "TokenKeywordElse",
	lexer.TokenKeywordEnum:                    "TokenKeywordEnum",
	lexer.TokenKeywordExport:                  "TokenKeywordExport",
	lexer.TokenKeywordExtends:                 "TokenKeywordExtends",
	lexer.TokenKeywordFalse:                   "TokenKeywordFalse",
	lexer.TokenKeywordFinally:                 "TokenKeywordFinally",
	lexer.TokenKeywordFor:                     "TokenKeywordFor",
	lexer.TokenKeywordFrom:                    "TokenKeywordFrom",
	lexer.TokenKeywordFunction:                "TokenKeywordFunction",
	lexer.TokenKeywordGet:                     "TokenKeywordGet",
	lexer.TokenKeywordIf:                      "TokenKeywordIf",
	lexer.TokenKeywordImplements:              "TokenKeywordImplements",
	lexer.TokenKeywordImport:                  "TokenKeywordImport",
	lexer.TokenKeywordIn:                      "TokenKeywordIn",
	lexer.TokenKeywordInstanceOf:              "TokenKeywordInstanceOf",
	lexer.TokenKeywordInterface:               "TokenKeywordInterface",
	lexer.TokenKeywordLet:                     "TokenKeywordLet",
	lexer.TokenKeywordNew:                     "TokenKeywordNew",
	lexer.TokenKeywordNull:                    "TokenKeywordNull",
	lexer.TokenKeywordMeta:                    "TokenKeywordMeta",
	lexer.TokenKeywordOf:                      "TokenKeywordOf",
	lexer.TokenKeywordPackage:                 "TokenKeywordPackage",
	lexer.TokenKeywordPrivate:                 "TokenKeywordPrivate",
	lexer.TokenKeywordProtected:               "TokenKeywordProtected",
	lexer.TokenKeywordPublic:                  "TokenKeywordPublic",
	lexer.TokenKeywordReturn:                  "TokenKeywordReturn",
	lexer.TokenKeywordSet:                     "TokenKeywordSet",
	lexer.TokenKeywordStatic:                  "TokenKeywordStatic",
	lexer.TokenKeywordSuper:                   "TokenKeywordSuper",
	lexer.TokenKeywordSwitch:                  "TokenKeywordSwitch",
	lexer.TokenKeywordTarget:                  "TokenKeywordTarget",
	lexer.TokenKeywordThis:                    "TokenKeywordThis",
	lexer.TokenKeywordThrow:                   "TokenKeywordThrow",
	lexer.TokenKeywordTrue:                    "TokenKeywordTrue",
	lexer.TokenKeywordTry:                     "TokenKeywordTry",
	lexer.TokenKeywordTypeOf:                  "TokenKeywordTypeOf",
	lexer.TokenKeywordVar:                     "TokenKeywordVar",
	lexer.TokenKeywordVoid:                    "TokenKeywordVoid",
	lexer.TokenKeywordWhile:                   "TokenKeywordWhile",
	lexer.TokenKeywordWith:                    "TokenKeywordWith",
	lexer.TokenKeywordYield:                   "TokenKeywordYield",
	lexer.TokenPunctuatorOptionalChain:        "TokenPunctuatorOptionalChain",
	lexer.TokenPunctuatorOpenBrace:            "TokenPunctuatorOpenBrace",
	lexer.TokenPunctuatorOpenParen:            "TokenPunctuatorOpenParen",
	lexer.TokenPunctuatorOpenBracket:          "TokenPunctuatorOpenBracket",
	lexer.TokenPunctuatorCloseBracket:         "TokenPunctuatorCloseBracket",
	lexer.TokenPunctuatorCloseParen:           "TokenPunctuatorCloseParen",
	lexer.TokenPunctuatorCloseBrace:           "TokenPunctuatorCloseBrace",
	lexer.TokenPunctuatorDot:                  "TokenPunctuatorDot",
	lexer.TokenPunctuatorEllipsis:             "TokenPunctuatorEllipsis",
	lexer.TokenPunctuatorSemicolon:            "TokenPunctuatorSemicolon",
	lexer.TokenPunctuatorComma:                "TokenPunctuatorComma",
	lexer.TokenPunctuatorLessThan:             "TokenPunctuatorLessThan",
	lexer.TokenPunctuatorGreaterThan:          "TokenPunctuatorGreaterThan",
	lexer.TokenPunctuatorLessThanEqual:        "TokenPunctuatorLessThanEqual",
	lexer.TokenPunctuatorGreaterThanEqual:     "TokenPunctuatorGreaterThanEqual",
	lexer.TokenPunctuatorEqual:                "TokenPunctuatorEqual",
	lexer.TokenPunctuatorNotEqual:             "TokenPunctuatorNotEqual",
	lexer.TokenPunctuatorStrictEqual:          "TokenPunctuatorStrictEqual",
	lexer.TokenPunctuatorStrictNotEqual:       "TokenPunctuatorStrictNotEqual",
	lexer.TokenPunctuatorPlus:                 "TokenPunctuatorPlus",
	lexer.TokenPunctuatorMinus:                "TokenPunctuatorMinus",
	lexer.TokenPunctuatorMult:                 "TokenPunctuatorMult",
	lexer.TokenPunctuatorDiv:                  "TokenPunctuatorDiv",
	lexer.TokenPunctuatorMod:                  "TokenPunctuatorMod",
	lexer.TokenPunctuatorExponent:             "TokenPunctuatorExponent",
	lexer.TokenPunctuatorIncrement:            "TokenPunctuatorIncrement",
	lexer.TokenPunctuatorDecrement:            "TokenPunctuatorDecrement",
	lexer.TokenPunctuatorLShift:               "TokenPunctuatorLShift",
	lexer.TokenPunctuatorRShift:               "TokenPunctuatorRShift",
	lexer.TokenPunctuatorUnsignedRShift:       "TokenPunctuatorUnsignedRShift",
	lexer.TokenPunctuatorBitAnd:               "TokenPunctuatorBitAnd",
	lexer.TokenPunctuatorBitOr:                "TokenPunctuatorBitOr",
	lexer.TokenPunctuatorBitXor:               "TokenPunctuatorBitXor",
	lexer.TokenPunctuatorNot:                  "TokenPunctuatorNot",
	lexer.TokenPunctuatorBitNot:               "TokenPunctuatorBitNot",
	lexer.TokenPunctuatorLogicalAnd:           "TokenPunctuatorLogicalAnd",
	lexer.TokenPunctuatorLogicalOr:            "TokenPunctuatorLogicalOr",
	lexer.TokenPunctuatorNullCoalesce:         "TokenPunctuatorNullCoalesce",
	lexer.TokenPunctuatorQuestionMark:         "TokenPunctuatorQuestionMark",
	lexer.TokenPunctuatorColon:                "TokenPunctuatorColon",
	lexer.TokenPunctuatorAssign:               "TokenPunctuatorAssign",
	lexer.TokenPunctuatorPlusAssign:           "TokenPunctuatorPlusAssign",
	lexer.TokenPunctuatorMinusAssign:          "TokenPunctuatorMinusAssign",
	lexer.TokenPunctuatorMultAssign:           "TokenPunctuatorMultAssign",
	lexer.TokenPunctuatorDivAssign:            "TokenPunctuatorDivAssign",
	lexer.TokenPunctuatorModAssign:            "TokenPunctuatorModAssign",
	lexer.TokenPunctuatorExponentAssign:       "TokenPunctuatorExponentAssign",
	lexer.TokenPunctuatorLShiftAssign:         "TokenPunctuatorLShiftAssign",
	lexer.TokenPunctuatorRShiftAssign:         "TokenPunctuatorRShiftAssign",
	lexer.TokenPunctuatorUnsignedRShiftAssign: "TokenPunctuatorUnsignedRShiftAssign",
	lexer.TokenPunctuatorBitAndAssign:         "TokenPunctuatorBitAndAssign",
	lexer.TokenPunctuatorBitOrAssign:          "TokenPunctuatorBitOrAssign",
	lexer.TokenPunctuatorBitXorAssign:         "TokenPunctuatorBitXorAssign",
	lexer.TokenPunctuatorLogicalAndAssign:     "TokenPunctuatorLogicalAndAssign",
	lexer.TokenPunctuatorLogicalOrAssign:      "TokenPunctuatorLogicalOrAssign",
	lexer.TokenPunctuatorNullCoalesceAssign:   "TokenPunctuatorNullCoalesceAssign",
	lexer.TokenPunctuatorFatArrow:             "TokenPunctuatorFatArrow",
	lexer.TokenLiteralNumber:                  "TokenLiteralNumber",
	lexer.TokenLiteralString:                  "TokenLiteralString",
	lexer.TokenLiteralRegExp:                  "TokenLiteralRegExp",
	lexer.TokenLiteralTemplate:                "TokenLiteralTemplate",
}
