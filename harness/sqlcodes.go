// Code generated by tools from the published SQLSTATE list (PostgreSQL, appendix A); do not edit.
package main

import sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"

type sqlCode struct {
	code sqlerrors.Code
	name string
	text string // the published five characters
}

var sqlCodes = []sqlCode{
	{sqlerrors.SuccessfulCompletion, "SuccessfulCompletion", "00000"},
	{sqlerrors.Warning, "Warning", "01000"},
	{sqlerrors.DynamicResultSetsReturned, "DynamicResultSetsReturned", "0100C"},
	{sqlerrors.ImplicitZeroBitPadding, "ImplicitZeroBitPadding", "01008"},
	{sqlerrors.NullValueEliminatedInSetFunction, "NullValueEliminatedInSetFunction", "01003"},
	{sqlerrors.PrivilegeNotGranted, "PrivilegeNotGranted", "01007"},
	{sqlerrors.PrivilegeNotRevoked, "PrivilegeNotRevoked", "01006"},
	{sqlerrors.StringDataRightTruncationWarning, "StringDataRightTruncationWarning", "01004"},
	{sqlerrors.DeprecatedFeature, "DeprecatedFeature", "01P01"},
	{sqlerrors.NoData, "NoData", "02000"},
	{sqlerrors.NoAdditionalDynamicResultSetsReturned, "NoAdditionalDynamicResultSetsReturned", "02001"},
	{sqlerrors.SQLStatementNotYetComplete, "SQLStatementNotYetComplete", "03000"},
	{sqlerrors.ConnectionException, "ConnectionException", "08000"},
	{sqlerrors.ConnectionDoesNotExist, "ConnectionDoesNotExist", "08003"},
	{sqlerrors.ConnectionFailure, "ConnectionFailure", "08006"},
	{sqlerrors.SQLClientUnableToEstablishSQLConnection, "SQLClientUnableToEstablishSQLConnection", "08001"},
	{sqlerrors.SQLServerRejectedEstablishmentOfSQLConnection, "SQLServerRejectedEstablishmentOfSQLConnection", "08004"},
	{sqlerrors.TransactionResolutionUnknown, "TransactionResolutionUnknown", "08007"},
	{sqlerrors.ProtocolViolation, "ProtocolViolation", "08P01"},
	{sqlerrors.TriggeredActionException, "TriggeredActionException", "09000"},
	{sqlerrors.FeatureNotSupported, "FeatureNotSupported", "0A000"},
	{sqlerrors.InvalidTransactionInitiation, "InvalidTransactionInitiation", "0B000"},
	{sqlerrors.LocatorException, "LocatorException", "0F000"},
	{sqlerrors.InvalidLocatorSpecification, "InvalidLocatorSpecification", "0F001"},
	{sqlerrors.InvalidGrantor, "InvalidGrantor", "0L000"},
	{sqlerrors.InvalidGrantOperation, "InvalidGrantOperation", "0LP01"},
	{sqlerrors.InvalidRoleSpecification, "InvalidRoleSpecification", "0P000"},
	{sqlerrors.DiagnosticsException, "DiagnosticsException", "0Z000"},
	{sqlerrors.StackedDiagnosticsAccessedWithoutActiveHandler, "StackedDiagnosticsAccessedWithoutActiveHandler", "0Z002"},
	{sqlerrors.CaseNotFound, "CaseNotFound", "20000"},
	{sqlerrors.CardinalityViolation, "CardinalityViolation", "21000"},
	{sqlerrors.DataException, "DataException", "22000"},
	{sqlerrors.ArraySubscriptError, "ArraySubscriptError", "2202E"},
	{sqlerrors.CharacterNotInRepertoire, "CharacterNotInRepertoire", "22021"},
	{sqlerrors.DatetimeFieldOverflow, "DatetimeFieldOverflow", "22008"},
	{sqlerrors.DivisionByZero, "DivisionByZero", "22012"},
	{sqlerrors.ErrorInAssignment, "ErrorInAssignment", "22005"},
	{sqlerrors.EscapeCharacterConflict, "EscapeCharacterConflict", "2200B"},
	{sqlerrors.IndicatorOverflow, "IndicatorOverflow", "22022"},
	{sqlerrors.IntervalFieldOverflow, "IntervalFieldOverflow", "22015"},
	{sqlerrors.InvalidArgumentForLogarithm, "InvalidArgumentForLogarithm", "2201E"},
	{sqlerrors.InvalidArgumentForNtileFunction, "InvalidArgumentForNtileFunction", "22014"},
	{sqlerrors.InvalidArgumentForNthValueFunction, "InvalidArgumentForNthValueFunction", "22016"},
	{sqlerrors.InvalidArgumentForPowerFunction, "InvalidArgumentForPowerFunction", "2201F"},
	{sqlerrors.InvalidArgumentForWidthBucketFunction, "InvalidArgumentForWidthBucketFunction", "2201G"},
	{sqlerrors.InvalidCharacterValueForCast, "InvalidCharacterValueForCast", "22018"},
	{sqlerrors.InvalidDatetimeFormat, "InvalidDatetimeFormat", "22007"},
	{sqlerrors.InvalidEscapeCharacter, "InvalidEscapeCharacter", "22019"},
	{sqlerrors.InvalidEscapeOctet, "InvalidEscapeOctet", "2200D"},
	{sqlerrors.InvalidEscapeSequence, "InvalidEscapeSequence", "22025"},
	{sqlerrors.NonstandardUseOfEscapeCharacter, "NonstandardUseOfEscapeCharacter", "22P06"},
	{sqlerrors.InvalidIndicatorParameterValue, "InvalidIndicatorParameterValue", "22010"},
	{sqlerrors.InvalidParameterValue, "InvalidParameterValue", "22023"},
	{sqlerrors.InvalidPrecedingOrFollowingSize, "InvalidPrecedingOrFollowingSize", "22013"},
	{sqlerrors.InvalidRegularExpression, "InvalidRegularExpression", "2201B"},
	{sqlerrors.InvalidRowCountInLimitClause, "InvalidRowCountInLimitClause", "2201W"},
	{sqlerrors.InvalidRowCountInResultOffsetClause, "InvalidRowCountInResultOffsetClause", "2201X"},
	{sqlerrors.InvalidTablesampleArgument, "InvalidTablesampleArgument", "2202H"},
	{sqlerrors.InvalidTablesampleRepeat, "InvalidTablesampleRepeat", "2202G"},
	{sqlerrors.InvalidTimeZoneDisplacementValue, "InvalidTimeZoneDisplacementValue", "22009"},
	{sqlerrors.InvalidUseOfEscapeCharacter, "InvalidUseOfEscapeCharacter", "2200C"},
	{sqlerrors.MostSpecificTypeMismatch, "MostSpecificTypeMismatch", "2200G"},
	{sqlerrors.NullDataValueNotAllowed, "NullDataValueNotAllowed", "22004"},
	{sqlerrors.NullDataValueNoIndicatorParameter, "NullDataValueNoIndicatorParameter", "22002"},
	{sqlerrors.NumericValueOutOfRange, "NumericValueOutOfRange", "22003"},
	{sqlerrors.SequenceGeneratorLimitExceeded, "SequenceGeneratorLimitExceeded", "2200H"},
	{sqlerrors.StringDataLengthMismatch, "StringDataLengthMismatch", "22026"},
	{sqlerrors.StringDataRightTruncation, "StringDataRightTruncation", "22001"},
	{sqlerrors.SubstringError, "SubstringError", "22011"},
	{sqlerrors.TrimError, "TrimError", "22027"},
	{sqlerrors.UnterminatedCString, "UnterminatedCString", "22024"},
	{sqlerrors.ZeroLengthCharacterString, "ZeroLengthCharacterString", "2200F"},
	{sqlerrors.FloatingPointException, "FloatingPointException", "22P01"},
	{sqlerrors.InvalidTextRepresentation, "InvalidTextRepresentation", "22P02"},
	{sqlerrors.InvalidBinaryRepresentation, "InvalidBinaryRepresentation", "22P03"},
	{sqlerrors.BadCopyFileFormat, "BadCopyFileFormat", "22P04"},
	{sqlerrors.UntranslatableCharacter, "UntranslatableCharacter", "22P05"},
	{sqlerrors.NotAnXMLDocument, "NotAnXMLDocument", "2200L"},
	{sqlerrors.InvalidXMLDocument, "InvalidXMLDocument", "2200M"},
	{sqlerrors.InvalidXMLContent, "InvalidXMLContent", "2200N"},
	{sqlerrors.InvalidXMLComment, "InvalidXMLComment", "2200S"},
	{sqlerrors.InvalidXMLProcessingInstruction, "InvalidXMLProcessingInstruction", "2200T"},
	{sqlerrors.DuplicateJSONObjectKeyValue, "DuplicateJSONObjectKeyValue", "22030"},
	{sqlerrors.InvalidArgumentForSQLJSONDatetimeFunction, "InvalidArgumentForSQLJSONDatetimeFunction", "22031"},
	{sqlerrors.InvalidJSONText, "InvalidJSONText", "22032"},
	{sqlerrors.InvalidSQLJSONSubscript, "InvalidSQLJSONSubscript", "22033"},
	{sqlerrors.MoreThanOneSQLJSONItem, "MoreThanOneSQLJSONItem", "22034"},
	{sqlerrors.NoSQLJSONItem, "NoSQLJSONItem", "22035"},
	{sqlerrors.NonNumericSQLJSONItem, "NonNumericSQLJSONItem", "22036"},
	{sqlerrors.NonUniqueKeysInAJSONObject, "NonUniqueKeysInAJSONObject", "22037"},
	{sqlerrors.SingletonSQLJSONItemRequired, "SingletonSQLJSONItemRequired", "22038"},
	{sqlerrors.SQLJSONArrayNotFound, "SQLJSONArrayNotFound", "22039"},
	{sqlerrors.SQLJSONMemberNotFound, "SQLJSONMemberNotFound", "2203A"},
	{sqlerrors.SQLJSONNumberNotFound, "SQLJSONNumberNotFound", "2203B"},
	{sqlerrors.SQLJSONObjectNotFound, "SQLJSONObjectNotFound", "2203C"},
	{sqlerrors.TooManyJSONArrayElements, "TooManyJSONArrayElements", "2203D"},
	{sqlerrors.TooManyJSONObjectMembers, "TooManyJSONObjectMembers", "2203E"},
	{sqlerrors.SQLJSONScalarRequired, "SQLJSONScalarRequired", "2203F"},
	{sqlerrors.SQLJSONItemCannotBeCastToTargetType, "SQLJSONItemCannotBeCastToTargetType", "2203G"},
	{sqlerrors.IntegrityConstraintViolation, "IntegrityConstraintViolation", "23000"},
	{sqlerrors.RestrictViolation, "RestrictViolation", "23001"},
	{sqlerrors.NotNullViolation, "NotNullViolation", "23502"},
	{sqlerrors.ForeignKeyViolation, "ForeignKeyViolation", "23503"},
	{sqlerrors.UniqueViolation, "UniqueViolation", "23505"},
	{sqlerrors.CheckViolation, "CheckViolation", "23514"},
	{sqlerrors.ExclusionViolation, "ExclusionViolation", "23P01"},
	{sqlerrors.InvalidCursorState, "InvalidCursorState", "24000"},
	{sqlerrors.InvalidTransactionState, "InvalidTransactionState", "25000"},
	{sqlerrors.ActiveSQLTransaction, "ActiveSQLTransaction", "25001"},
	{sqlerrors.BranchTransactionAlreadyActive, "BranchTransactionAlreadyActive", "25002"},
	{sqlerrors.HeldCursorRequiresSameIsolationLevel, "HeldCursorRequiresSameIsolationLevel", "25008"},
	{sqlerrors.InappropriateAccessModeForBranchTransaction, "InappropriateAccessModeForBranchTransaction", "25003"},
	{sqlerrors.InappropriateIsolationLevelForBranchTransaction, "InappropriateIsolationLevelForBranchTransaction", "25004"},
	{sqlerrors.NoActiveSQLTransactionForBranchTransaction, "NoActiveSQLTransactionForBranchTransaction", "25005"},
	{sqlerrors.ReadOnlySQLTransaction, "ReadOnlySQLTransaction", "25006"},
	{sqlerrors.SchemaAndDataStatementMixingNotSupported, "SchemaAndDataStatementMixingNotSupported", "25007"},
	{sqlerrors.NoActiveSQLTransaction, "NoActiveSQLTransaction", "25P01"},
	{sqlerrors.InFailedSQLTransaction, "InFailedSQLTransaction", "25P02"},
	{sqlerrors.IdleInTransactionSessionTimeout, "IdleInTransactionSessionTimeout", "25P03"},
	{sqlerrors.TransactionTimeout, "TransactionTimeout", "25P04"},
	{sqlerrors.InvalidSQLStatementName, "InvalidSQLStatementName", "26000"},
	{sqlerrors.TriggeredDataChangeViolation, "TriggeredDataChangeViolation", "27000"},
	{sqlerrors.InvalidAuthorizationSpecification, "InvalidAuthorizationSpecification", "28000"},
	{sqlerrors.InvalidPassword, "InvalidPassword", "28P01"},
	{sqlerrors.DependentPrivilegeDescriptorsStillExist, "DependentPrivilegeDescriptorsStillExist", "2B000"},
	{sqlerrors.DependentObjectsStillExist, "DependentObjectsStillExist", "2BP01"},
	{sqlerrors.InvalidTransactionTermination, "InvalidTransactionTermination", "2D000"},
	{sqlerrors.SQLRoutineException, "SQLRoutineException", "2F000"},
	{sqlerrors.FunctionExecutedNoReturnStatement, "FunctionExecutedNoReturnStatement", "2F005"},
	{sqlerrors.SQLRoutineModifyingSQLDataNotPermitted, "SQLRoutineModifyingSQLDataNotPermitted", "2F002"},
	{sqlerrors.SQLRoutineProhibitedSQLStatementAttempted, "SQLRoutineProhibitedSQLStatementAttempted", "2F003"},
	{sqlerrors.SQLRoutineReadingSQLDataNotPermitted, "SQLRoutineReadingSQLDataNotPermitted", "2F004"},
	{sqlerrors.InvalidCursorName, "InvalidCursorName", "34000"},
	{sqlerrors.ExternalRoutineException, "ExternalRoutineException", "38000"},
	{sqlerrors.ContainingSQLNotPermitted, "ContainingSQLNotPermitted", "38001"},
	{sqlerrors.ExternalRoutineModifyingSQLDataNotPermitted, "ExternalRoutineModifyingSQLDataNotPermitted", "38002"},
	{sqlerrors.ExternalRoutineProhibitedSQLStatementAttempted, "ExternalRoutineProhibitedSQLStatementAttempted", "38003"},
	{sqlerrors.ExternalRoutineReadingSQLDataNotPermitted, "ExternalRoutineReadingSQLDataNotPermitted", "38004"},
	{sqlerrors.ExternalRoutineInvocationException, "ExternalRoutineInvocationException", "39000"},
	{sqlerrors.InvalidSQLStateReturned, "InvalidSQLStateReturned", "39001"},
	{sqlerrors.NullValueNotAllowed, "NullValueNotAllowed", "39004"},
	{sqlerrors.TriggerProtocolViolated, "TriggerProtocolViolated", "39P01"},
	{sqlerrors.SRFProtocolViolated, "SRFProtocolViolated", "39P02"},
	{sqlerrors.EventTriggerProtocolViolated, "EventTriggerProtocolViolated", "39P03"},
	{sqlerrors.SavepointException, "SavepointException", "3B000"},
	{sqlerrors.InvalidSavepointSpecification, "InvalidSavepointSpecification", "3B001"},
	{sqlerrors.InvalidCatalogName, "InvalidCatalogName", "3D000"},
	{sqlerrors.InvalidSchemaName, "InvalidSchemaName", "3F000"},
	{sqlerrors.TransactionRollback, "TransactionRollback", "40000"},
	{sqlerrors.TransactionIntegrityConstraintViolation, "TransactionIntegrityConstraintViolation", "40002"},
	{sqlerrors.SerializationFailure, "SerializationFailure", "40001"},
	{sqlerrors.StatementCompletionUnknown, "StatementCompletionUnknown", "40003"},
	{sqlerrors.DeadlockDetected, "DeadlockDetected", "40P01"},
	{sqlerrors.SyntaxErrorOrAccessRuleViolation, "SyntaxErrorOrAccessRuleViolation", "42000"},
	{sqlerrors.SyntaxError, "SyntaxError", "42601"},
	{sqlerrors.InsufficientPrivilege, "InsufficientPrivilege", "42501"},
	{sqlerrors.CannotCoerce, "CannotCoerce", "42846"},
	{sqlerrors.GroupingError, "GroupingError", "42803"},
	{sqlerrors.WindowingError, "WindowingError", "42P20"},
	{sqlerrors.InvalidRecursion, "InvalidRecursion", "42P19"},
	{sqlerrors.InvalidForeignKey, "InvalidForeignKey", "42830"},
	{sqlerrors.InvalidName, "InvalidName", "42602"},
	{sqlerrors.NameTooLong, "NameTooLong", "42622"},
	{sqlerrors.ReservedName, "ReservedName", "42939"},
	{sqlerrors.DatatypeMismatch, "DatatypeMismatch", "42804"},
	{sqlerrors.IndeterminateDatatype, "IndeterminateDatatype", "42P18"},
	{sqlerrors.CollationMismatch, "CollationMismatch", "42P21"},
	{sqlerrors.IndeterminateCollation, "IndeterminateCollation", "42P22"},
	{sqlerrors.WrongObjectType, "WrongObjectType", "42809"},
	{sqlerrors.GeneratedAlways, "GeneratedAlways", "428C9"},
	{sqlerrors.UndefinedColumn, "UndefinedColumn", "42703"},
	{sqlerrors.UndefinedFunction, "UndefinedFunction", "42883"},
	{sqlerrors.UndefinedTable, "UndefinedTable", "42P01"},
	{sqlerrors.UndefinedParameter, "UndefinedParameter", "42P02"},
	{sqlerrors.UndefinedObject, "UndefinedObject", "42704"},
	{sqlerrors.DuplicateColumn, "DuplicateColumn", "42701"},
	{sqlerrors.DuplicateCursor, "DuplicateCursor", "42P03"},
	{sqlerrors.DuplicateDatabase, "DuplicateDatabase", "42P04"},
	{sqlerrors.DuplicateFunction, "DuplicateFunction", "42723"},
	{sqlerrors.DuplicatePreparedStatement, "DuplicatePreparedStatement", "42P05"},
	{sqlerrors.DuplicateSchema, "DuplicateSchema", "42P06"},
	{sqlerrors.DuplicateTable, "DuplicateTable", "42P07"},
	{sqlerrors.DuplicateAlias, "DuplicateAlias", "42712"},
	{sqlerrors.DuplicateObject, "DuplicateObject", "42710"},
	{sqlerrors.AmbiguousColumn, "AmbiguousColumn", "42702"},
	{sqlerrors.AmbiguousFunction, "AmbiguousFunction", "42725"},
	{sqlerrors.AmbiguousParameter, "AmbiguousParameter", "42P08"},
	{sqlerrors.AmbiguousAlias, "AmbiguousAlias", "42P09"},
	{sqlerrors.InvalidColumnReference, "InvalidColumnReference", "42P10"},
	{sqlerrors.InvalidColumnDefinition, "InvalidColumnDefinition", "42611"},
	{sqlerrors.InvalidCursorDefinition, "InvalidCursorDefinition", "42P11"},
	{sqlerrors.InvalidDatabaseDefinition, "InvalidDatabaseDefinition", "42P12"},
	{sqlerrors.InvalidFunctionDefinition, "InvalidFunctionDefinition", "42P13"},
	{sqlerrors.InvalidPreparedStatementDefinition, "InvalidPreparedStatementDefinition", "42P14"},
	{sqlerrors.InvalidSchemaDefinition, "InvalidSchemaDefinition", "42P15"},
	{sqlerrors.InvalidTableDefinition, "InvalidTableDefinition", "42P16"},
	{sqlerrors.InvalidObjectDefinition, "InvalidObjectDefinition", "42P17"},
	{sqlerrors.WithCheckOptionViolation, "WithCheckOptionViolation", "44000"},
	{sqlerrors.InsufficientResources, "InsufficientResources", "53000"},
	{sqlerrors.DiskFull, "DiskFull", "53100"},
	{sqlerrors.OutOfMemory, "OutOfMemory", "53200"},
	{sqlerrors.TooManyConnections, "TooManyConnections", "53300"},
	{sqlerrors.ConfigurationLimitExceeded, "ConfigurationLimitExceeded", "53400"},
	{sqlerrors.ProgramLimitExceeded, "ProgramLimitExceeded", "54000"},
	{sqlerrors.StatementTooComplex, "StatementTooComplex", "54001"},
	{sqlerrors.TooManyColumns, "TooManyColumns", "54011"},
	{sqlerrors.TooManyArguments, "TooManyArguments", "54023"},
	{sqlerrors.ObjectNotInPrerequisiteState, "ObjectNotInPrerequisiteState", "55000"},
	{sqlerrors.ObjectInUse, "ObjectInUse", "55006"},
	{sqlerrors.CantChangeRuntimeParam, "CantChangeRuntimeParam", "55P02"},
	{sqlerrors.LockNotAvailable, "LockNotAvailable", "55P03"},
	{sqlerrors.UnsafeNewEnumValueUsage, "UnsafeNewEnumValueUsage", "55P04"},
	{sqlerrors.OperatorIntervention, "OperatorIntervention", "57000"},
	{sqlerrors.QueryCanceled, "QueryCanceled", "57014"},
	{sqlerrors.AdminShutdown, "AdminShutdown", "57P01"},
	{sqlerrors.CrashShutdown, "CrashShutdown", "57P02"},
	{sqlerrors.CannotConnectNow, "CannotConnectNow", "57P03"},
	{sqlerrors.DatabaseDropped, "DatabaseDropped", "57P04"},
	{sqlerrors.IdleSessionTimeout, "IdleSessionTimeout", "57P05"},
	{sqlerrors.SystemError, "SystemError", "58000"},
	{sqlerrors.IOError, "IOError", "58030"},
	{sqlerrors.UndefinedFile, "UndefinedFile", "58P01"},
	{sqlerrors.DuplicateFile, "DuplicateFile", "58P02"},
	{sqlerrors.ConfigFileError, "ConfigFileError", "F0000"},
	{sqlerrors.LockFileExists, "LockFileExists", "F0001"},
	{sqlerrors.FDWError, "FDWError", "HV000"},
	{sqlerrors.FDWColumnNameNotFound, "FDWColumnNameNotFound", "HV005"},
	{sqlerrors.FDWDynamicParameterValueNeeded, "FDWDynamicParameterValueNeeded", "HV002"},
	{sqlerrors.FDWFunctionSequenceError, "FDWFunctionSequenceError", "HV010"},
	{sqlerrors.FDWInconsistentDescriptorInformation, "FDWInconsistentDescriptorInformation", "HV021"},
	{sqlerrors.FDWInvalidAttributeValue, "FDWInvalidAttributeValue", "HV024"},
	{sqlerrors.FDWInvalidColumnName, "FDWInvalidColumnName", "HV007"},
	{sqlerrors.FDWInvalidColumnNumber, "FDWInvalidColumnNumber", "HV008"},
	{sqlerrors.FDWInvalidDataType, "FDWInvalidDataType", "HV004"},
	{sqlerrors.FDWInvalidDataTypeDescriptors, "FDWInvalidDataTypeDescriptors", "HV006"},
	{sqlerrors.FDWInvalidDescriptorFieldIdentifier, "FDWInvalidDescriptorFieldIdentifier", "HV091"},
	{sqlerrors.FDWInvalidHandle, "FDWInvalidHandle", "HV00B"},
	{sqlerrors.FDWInvalidOptionIndex, "FDWInvalidOptionIndex", "HV00C"},
	{sqlerrors.FDWInvalidOptionName, "FDWInvalidOptionName", "HV00D"},
	{sqlerrors.FDWInvalidStringLength, "FDWInvalidStringLength", "HV090"},
	{sqlerrors.FDWInvalidStringFormat, "FDWInvalidStringFormat", "HV00A"},
	{sqlerrors.FDWInvalidUseOfNullPointer, "FDWInvalidUseOfNullPointer", "HV009"},
	{sqlerrors.FDWTooManyHandles, "FDWTooManyHandles", "HV014"},
	{sqlerrors.FDWOutOfMemory, "FDWOutOfMemory", "HV001"},
	{sqlerrors.FDWNoSchemas, "FDWNoSchemas", "HV00P"},
	{sqlerrors.FDWOptionNameNotFound, "FDWOptionNameNotFound", "HV00J"},
	{sqlerrors.FDWReplyHandle, "FDWReplyHandle", "HV00K"},
	{sqlerrors.FDWSchemaNotFound, "FDWSchemaNotFound", "HV00Q"},
	{sqlerrors.FDWTableNotFound, "FDWTableNotFound", "HV00R"},
	{sqlerrors.FDWUnableToCreateExecution, "FDWUnableToCreateExecution", "HV00L"},
	{sqlerrors.FDWUnableToCreateReply, "FDWUnableToCreateReply", "HV00M"},
	{sqlerrors.FDWUnableToEstablishConnection, "FDWUnableToEstablishConnection", "HV00N"},
	{sqlerrors.PLPGSQLError, "PLPGSQLError", "P0000"},
	{sqlerrors.RaiseException, "RaiseException", "P0001"},
	{sqlerrors.NoDataFound, "NoDataFound", "P0002"},
	{sqlerrors.TooManyRows, "TooManyRows", "P0003"},
	{sqlerrors.AssertFailure, "AssertFailure", "P0004"},
	{sqlerrors.InternalError, "InternalError", "XX000"},
	{sqlerrors.DataCorrupted, "DataCorrupted", "XX001"},
	{sqlerrors.IndexCorrupted, "IndexCorrupted", "XX002"},
}

type sqlClass struct {
	class sqlerrors.Class
	id    string
	text  string
}

var sqlClasses = []sqlClass{
	{sqlerrors.Class00, "00", "Successful Completion"},
	{sqlerrors.Class01, "01", "Warning"},
	{sqlerrors.Class02, "02", "No Data"},
	{sqlerrors.Class03, "03", "SQL Statement Not Yet Complete"},
	{sqlerrors.Class08, "08", "Connection Exception"},
	{sqlerrors.Class09, "09", "Triggered Action Exception"},
	{sqlerrors.Class0A, "0A", "Feature Not Supported"},
	{sqlerrors.Class0B, "0B", "Invalid Transaction Initiation"},
	{sqlerrors.Class0F, "0F", "Locator Exception"},
	{sqlerrors.Class0L, "0L", "Invalid Grantor"},
	{sqlerrors.Class0P, "0P", "Invalid Role Specification"},
	{sqlerrors.Class0Z, "0Z", "Diagnostics Exception"},
	{sqlerrors.Class20, "20", "Case Not Found"},
	{sqlerrors.Class21, "21", "Cardinality Violation"},
	{sqlerrors.Class22, "22", "Data Exception"},
	{sqlerrors.Class23, "23", "Integrity Constraint Violation"},
	{sqlerrors.Class24, "24", "Invalid Cursor State"},
	{sqlerrors.Class25, "25", "Invalid Transaction State"},
	{sqlerrors.Class26, "26", "Invalid SQL Statement Name"},
	{sqlerrors.Class27, "27", "Triggered Data Change Violation"},
	{sqlerrors.Class28, "28", "Invalid Authorization Specification"},
	{sqlerrors.Class2B, "2B", "Dependent Privilege Descriptors Still Exist"},
	{sqlerrors.Class2D, "2D", "Invalid Transaction Termination"},
	{sqlerrors.Class2F, "2F", "SQL Routine Exception"},
	{sqlerrors.Class34, "34", "Invalid Cursor Name"},
	{sqlerrors.Class38, "38", "External Routine Exception"},
	{sqlerrors.Class39, "39", "External Routine Invocation Exception"},
	{sqlerrors.Class3B, "3B", "Savepoint Exception"},
	{sqlerrors.Class3D, "3D", "Invalid Catalog Name"},
	{sqlerrors.Class3F, "3F", "Invalid Schema Name"},
	{sqlerrors.Class40, "40", "Transaction Rollback"},
	{sqlerrors.Class42, "42", "Syntax Error or Access Rule Violation"},
	{sqlerrors.Class44, "44", "WITH CHECK OPTION Violation"},
	{sqlerrors.Class53, "53", "Insufficient Resources"},
	{sqlerrors.Class54, "54", "Program Limit Exceeded"},
	{sqlerrors.Class55, "55", "Object Not In Prerequisite State"},
	{sqlerrors.Class57, "57", "Operator Intervention"},
	{sqlerrors.Class58, "58", "System Error"},
	{sqlerrors.ClassF0, "F0", "Configuration File Error"},
	{sqlerrors.ClassHV, "HV", "Foreign Data Wrapper Error (SQL/MED)"},
	{sqlerrors.ClassP0, "P0", "PL/pgSQL Error"},
	{sqlerrors.ClassXX, "XX", "Internal Error"},
}
