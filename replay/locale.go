package main

func (tlocale) False() string                        { return tmpl("false") }
func (tlocale) Required() string                     { return tmpl("required") }
func (tlocale) InvalidType() string                  { return tmpl("invalid_type") }
func (tlocale) NumberAnyOf() string                  { return tmpl("number_any_of") }
func (tlocale) NumberOneOf() string                  { return tmpl("number_one_of") }
func (tlocale) NumberAllOf() string                  { return tmpl("number_all_of") }
func (tlocale) NumberNot() string                    { return tmpl("number_not") }
func (tlocale) MissingDependency() string            { return tmpl("missing_dependency") }
func (tlocale) Internal() string                     { return tmpl("internal") }
func (tlocale) Const() string                        { return tmpl("const") }
func (tlocale) Enum() string                         { return tmpl("enum") }
func (tlocale) ArrayNoAdditionalItems() string       { return tmpl("array_no_additional_items") }
func (tlocale) ArrayMinItems() string                { return tmpl("array_min_items") }
func (tlocale) ArrayMaxItems() string                { return tmpl("array_max_items") }
func (tlocale) Unique() string                       { return tmpl("unique") }
func (tlocale) ArrayContains() string                { return tmpl("contains") }
func (tlocale) ArrayMinProperties() string           { return tmpl("array_min_properties") }
func (tlocale) ArrayMaxProperties() string           { return tmpl("array_max_properties") }
func (tlocale) AdditionalPropertyNotAllowed() string { return tmpl("additional_property_not_allowed") }
func (tlocale) InvalidPropertyPattern() string       { return tmpl("invalid_property_pattern") }
func (tlocale) InvalidPropertyName() string          { return tmpl("invalid_property_name") }
func (tlocale) StringGTE() string                    { return tmpl("string_gte") }
func (tlocale) StringLTE() string                    { return tmpl("string_lte") }
func (tlocale) DoesNotMatchPattern() string          { return tmpl("pattern") }
func (tlocale) DoesNotMatchFormat() string           { return tmpl("format") }
func (tlocale) MultipleOf() string                   { return tmpl("multiple_of") }
func (tlocale) NumberGTE() string                    { return tmpl("number_gte") }
func (tlocale) NumberGT() string                     { return tmpl("number_gt") }
func (tlocale) NumberLTE() string                    { return tmpl("number_lte") }
func (tlocale) NumberLT() string                     { return tmpl("number_lt") }
func (tlocale) ConditionThen() string                { return tmpl("condition_then") }
func (tlocale) ConditionElse() string                { return tmpl("condition_else") }
