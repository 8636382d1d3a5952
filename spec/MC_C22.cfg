SPECIFICATION Spec
INVARIANTS SpellingFree NamesAgree AliasesAgree Conditional StylesAgree OneSeries Unknown Complete
