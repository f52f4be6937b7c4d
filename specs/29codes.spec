// Type code and message template of each error type (documented in README and locales.go)
ghost func locT(l any, code string) string
fn Code(e any) string =
  if typeis(e, *FalseError) then "false" else
  if typeis(e, *RequiredError) then "required" else
  if typeis(e, *InvalidTypeError) then "invalid_type" else
  if typeis(e, *NumberAnyOfError) then "number_any_of" else
  if typeis(e, *NumberOneOfError) then "number_one_of" else
  if typeis(e, *NumberAllOfError) then "number_all_of" else
  if typeis(e, *NumberNotError) then "number_not" else
  if typeis(e, *MissingDependencyError) then "missing_dependency" else
  if typeis(e, *InternalError) then "internal" else
  if typeis(e, *ConstError) then "const" else
  if typeis(e, *EnumError) then "enum" else
  if typeis(e, *ArrayNoAdditionalItemsError) then "array_no_additional_items" else
  if typeis(e, *ArrayMinItemsError) then "array_min_items" else
  if typeis(e, *ArrayMaxItemsError) then "array_max_items" else
  if typeis(e, *ItemsMustBeUniqueError) then "unique" else
  if typeis(e, *ArrayContainsError) then "contains" else
  if typeis(e, *ArrayMinPropertiesError) then "array_min_properties" else
  if typeis(e, *ArrayMaxPropertiesError) then "array_max_properties" else
  if typeis(e, *AdditionalPropertyNotAllowedError) then "additional_property_not_allowed" else
  if typeis(e, *InvalidPropertyPatternError) then "invalid_property_pattern" else
  if typeis(e, *InvalidPropertyNameError) then "invalid_property_name" else
  if typeis(e, *StringLengthGTEError) then "string_gte" else
  if typeis(e, *StringLengthLTEError) then "string_lte" else
  if typeis(e, *DoesNotMatchPatternError) then "pattern" else
  if typeis(e, *DoesNotMatchFormatError) then "format" else
  if typeis(e, *MultipleOfError) then "multiple_of" else
  if typeis(e, *NumberGTEError) then "number_gte" else
  if typeis(e, *NumberGTError) then "number_gt" else
  if typeis(e, *NumberLTEError) then "number_lte" else
  if typeis(e, *NumberLTError) then "number_lt" else
  if typeis(e, *ConditionThenError) then "condition_then" else
  if typeis(e, *ConditionElseError) then "condition_else" else
  ""
pred Known(e any) = typeis(e, *FalseError) || typeis(e, *RequiredError) || typeis(e, *InvalidTypeError) || typeis(e, *NumberAnyOfError) || typeis(e, *NumberOneOfError) || typeis(e, *NumberAllOfError) || typeis(e, *NumberNotError) || typeis(e, *MissingDependencyError) || typeis(e, *InternalError) || typeis(e, *ConstError) || typeis(e, *EnumError) || typeis(e, *ArrayNoAdditionalItemsError) || typeis(e, *ArrayMinItemsError) || typeis(e, *ArrayMaxItemsError) || typeis(e, *ItemsMustBeUniqueError) || typeis(e, *ArrayContainsError) || typeis(e, *ArrayMinPropertiesError) || typeis(e, *ArrayMaxPropertiesError) || typeis(e, *AdditionalPropertyNotAllowedError) || typeis(e, *InvalidPropertyPatternError) || typeis(e, *InvalidPropertyNameError) || typeis(e, *StringLengthGTEError) || typeis(e, *StringLengthLTEError) || typeis(e, *DoesNotMatchPatternError) || typeis(e, *DoesNotMatchFormatError) || typeis(e, *MultipleOfError) || typeis(e, *NumberGTEError) || typeis(e, *NumberGTError) || typeis(e, *NumberLTEError) || typeis(e, *NumberLTError) || typeis(e, *ConditionThenError) || typeis(e, *ConditionElseError)
iface locale.False(l) (r)
  ensures r == locT(l, "false")
  noalloc
iface locale.Required(l) (r)
  ensures r == locT(l, "required")
  noalloc
iface locale.InvalidType(l) (r)
  ensures r == locT(l, "invalid_type")
  noalloc
iface locale.NumberAnyOf(l) (r)
  ensures r == locT(l, "number_any_of")
  noalloc
iface locale.NumberOneOf(l) (r)
  ensures r == locT(l, "number_one_of")
  noalloc
iface locale.NumberAllOf(l) (r)
  ensures r == locT(l, "number_all_of")
  noalloc
iface locale.NumberNot(l) (r)
  ensures r == locT(l, "number_not")
  noalloc
iface locale.MissingDependency(l) (r)
  ensures r == locT(l, "missing_dependency")
  noalloc
iface locale.Internal(l) (r)
  ensures r == locT(l, "internal")
  noalloc
iface locale.Const(l) (r)
  ensures r == locT(l, "const")
  noalloc
iface locale.Enum(l) (r)
  ensures r == locT(l, "enum")
  noalloc
iface locale.ArrayNoAdditionalItems(l) (r)
  ensures r == locT(l, "array_no_additional_items")
  noalloc
iface locale.ArrayMinItems(l) (r)
  ensures r == locT(l, "array_min_items")
  noalloc
iface locale.ArrayMaxItems(l) (r)
  ensures r == locT(l, "array_max_items")
  noalloc
iface locale.Unique(l) (r)
  ensures r == locT(l, "unique")
  noalloc
iface locale.ArrayContains(l) (r)
  ensures r == locT(l, "contains")
  noalloc
iface locale.ArrayMinProperties(l) (r)
  ensures r == locT(l, "array_min_properties")
  noalloc
iface locale.ArrayMaxProperties(l) (r)
  ensures r == locT(l, "array_max_properties")
  noalloc
iface locale.AdditionalPropertyNotAllowed(l) (r)
  ensures r == locT(l, "additional_property_not_allowed")
  noalloc
iface locale.InvalidPropertyPattern(l) (r)
  ensures r == locT(l, "invalid_property_pattern")
  noalloc
iface locale.InvalidPropertyName(l) (r)
  ensures r == locT(l, "invalid_property_name")
  noalloc
iface locale.StringGTE(l) (r)
  ensures r == locT(l, "string_gte")
  noalloc
iface locale.StringLTE(l) (r)
  ensures r == locT(l, "string_lte")
  noalloc
iface locale.DoesNotMatchPattern(l) (r)
  ensures r == locT(l, "pattern")
  noalloc
iface locale.DoesNotMatchFormat(l) (r)
  ensures r == locT(l, "format")
  noalloc
iface locale.MultipleOf(l) (r)
  ensures r == locT(l, "multiple_of")
  noalloc
iface locale.NumberGTE(l) (r)
  ensures r == locT(l, "number_gte")
  noalloc
iface locale.NumberGT(l) (r)
  ensures r == locT(l, "number_gt")
  noalloc
iface locale.NumberLTE(l) (r)
  ensures r == locT(l, "number_lte")
  noalloc
iface locale.NumberLT(l) (r)
  ensures r == locT(l, "number_lt")
  noalloc
iface locale.ConditionThen(l) (r)
  ensures r == locT(l, "condition_then")
  noalloc
iface locale.ConditionElse(l) (r)
  ensures r == locT(l, "condition_else")
  noalloc
