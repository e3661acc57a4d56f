fn cyclus::toolkit::AddJsonToXml
  [for $0.getMemberNames()] call cyclus::toolkit::AddJsonToXml($0[elem($0.getMemberNames())], ~ ++ $3 ++ "<" ++ elem($0.getMemberNames()) ++ ">\n", elem($0.getMemberNames()), $3 ++ "  ") IF $0.isObject() & !$0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & $0[elem($0.getMemberNames())].isObject() | $0.isObject() & !$0[elem($0.getMemberNames())].isNull() & $0[elem($0.getMemberNames())].isObject() & !$0[elem($0.getMemberNames())].size() == 0 | $0.isObject() & $0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].size() == 0 & $0[elem($0.getMemberNames())][0].isArray() | $0.isObject() & $0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].size() == 0 & $0[elem($0.getMemberNames())][0].isObject()
  [for $0.getMemberNames()] call cyclus::toolkit::AddJsonToXml($0[elem($0.getMemberNames())], ~ ++ $3 ++ "<" ++ elem($0.getMemberNames()) ++ ">", elem($0.getMemberNames()), $3 ++ "  ") IF $0.isObject() & !$0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].isObject() | $0.isObject() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].isObject() & !$0[elem($0.getMemberNames())].size() == 0 & !$0[elem($0.getMemberNames())][0].isArray() & !$0[elem($0.getMemberNames())][0].isObject()
  [for $0] call cyclus::toolkit::AddJsonToXml(elem($0), ~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">\n", $2, $3) IF $0.isArray() & !$0.isObject() & elem($0).isArray() & idx($0) >= 1 | $0.isArray() & !$0.isObject() & elem($0).isObject() & idx($0) >= 1
  [for $0] call cyclus::toolkit::AddJsonToXml(elem($0), ~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">", $2, $3) IF $0.isArray() & !$0.isObject() & !elem($0).isArray() & !elem($0).isObject() & idx($0) >= 1
  [for $0] call cyclus::toolkit::AddJsonToXml(elem($0), ~, $2, $3) IF $0.isArray() & !$0.isObject() & !idx($0) >= 1
  set $1(fold($0.getMemberNames(); $1; !$0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].isObject() | !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].isObject() & !$0[elem($0.getMemberNames())].size() == 0 & !$0[elem($0.getMemberNames())][0].isArray() & !$0[elem($0.getMemberNames())][0].isObject():~ ++ $3 ++ "<" ++ elem($0.getMemberNames()) ++ ">"' ++ "</" ++ elem($0.getMemberNames()) ++ ">\n" ; !$0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & $0[elem($0.getMemberNames())].isObject() | !$0[elem($0.getMemberNames())].isNull() & $0[elem($0.getMemberNames())].isObject() & !$0[elem($0.getMemberNames())].size() == 0 | $0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].size() == 0 & $0[elem($0.getMemberNames())][0].isArray() | $0[elem($0.getMemberNames())].isArray() & !$0[elem($0.getMemberNames())].isNull() & !$0[elem($0.getMemberNames())].size() == 0 & $0[elem($0.getMemberNames())][0].isObject():~ ++ $3 ++ "<" ++ elem($0.getMemberNames()) ++ ">\n"' ++ $3 ++ "</" ++ elem($0.getMemberNames()) ++ ">\n" ; $0[elem($0.getMemberNames())].isArray() & $0[elem($0.getMemberNames())].size() == 0 | $0[elem($0.getMemberNames())].isNull():~ ++ $3 ++ "<" ++ elem($0.getMemberNames()) ++ "/>\n")) IF $0.isObject()
  set $1(fold($0; $1; !($0.size()-idx($0)) >= 2 & !elem($0).isArray() & !elem($0).isObject() & idx($0) >= 1:~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">"' ; !($0.size()-idx($0)) >= 2 & !idx($0) >= 1:~' ; !($0.size()-idx($0)) >= 2 & elem($0).isArray() & idx($0) >= 1 | !($0.size()-idx($0)) >= 2 & elem($0).isObject() & idx($0) >= 1:~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">\n"' ; ($0.size()-idx($0)) >= 2 & !elem($0).isArray() & !elem($0).isObject() & !idx($0) >= 1:~' ++ "</" ++ $2 ++ ">\n" ; ($0.size()-idx($0)) >= 2 & !elem($0).isArray() & !elem($0).isObject() & idx($0) >= 1:~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">"' ++ "</" ++ $2 ++ ">\n" ; ($0.size()-idx($0)) >= 2 & elem($0).isArray() & !idx($0) >= 1 | ($0.size()-idx($0)) >= 2 & elem($0).isObject() & !idx($0) >= 1:~' ++ $3.substr(0,(size($3)-2)) ++ "</" ++ $2 ++ ">\n" ; ($0.size()-idx($0)) >= 2 & elem($0).isArray() & idx($0) >= 1 | ($0.size()-idx($0)) >= 2 & elem($0).isObject() & idx($0) >= 1:~ ++ $3.substr(0,(size($3)-2)) ++ "<" ++ $2 ++ ">\n"' ++ $3.substr(0,(size($3)-2)) ++ "</" ++ $2 ++ ">\n")) IF $0.isArray() & !$0.isObject()
  set $1($0.asString()) IF !$0.isArray() & !$0.isBool() & !$0.isDouble() & !$0.isInt() & !$0.isObject() & !$0.isUInt() | !$0.isArray() & !$0.isObject() & $0.isString()
  set $1($0.asInt64()) IF !$0.isArray() & $0.isInt() & !$0.isObject() & !$0.isString()
  set $1($0.asUInt64()) IF !$0.isArray() & !$0.isInt() & !$0.isObject() & !$0.isString() & $0.isUInt()
  set $1($0.asDouble()) IF !$0.isArray() & $0.isDouble() & !$0.isInt() & !$0.isObject() & !$0.isString() & !$0.isUInt()
  set $1($0.asBool()) IF !$0.isArray() & $0.isBool() & !$0.isDouble() & !$0.isInt() & !$0.isObject() & !$0.isString() & !$0.isUInt()
fn cyclus::toolkit::JsonInsertOrAppend
  call $0[$1].Json::Value::append($2) IF $0.isMember($1) & $0[$1].isArray()
  call Value{Json::arrayValue}.Json::Value::append($0[$1]) IF $0.isMember($1) & !$0[$1].isArray()
  call Value{Json::arrayValue}.Json::Value::append($2) IF $0.isMember($1) & !$0[$1].isArray()
  put $0.put($1, Value{Json::arrayValue}) IF $0.isMember($1) & !$0[$1].isArray()
  put $0.put($1, $2) IF !$0.isMember($1)
fn cyclus::toolkit::AddXmlToJson
  [for range($0.NElements())] call cyclus::toolkit::AddXmlToJson($0.SubTree("*",idx(range($0.NElements()))), Value{Json::objectValue}, $0.GetElementName(idx(range($0.NElements())))) IF !$0.SubTree("*",idx(range($0.NElements()))).NElements() == 0
  [for range($0.NElements())] call ~$1[$0.GetElementName(idx(range($0.NElements())))].Json::Value::append(Value{$0.SubTree("*",idx(range($0.NElements()))).GetString(".")}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & !caught(cyclus::ValueError &) & ~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call ~$1[$0.GetElementName(idx(range($0.NElements())))].Json::Value::append(Value{Json::nullValue}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & caught(cyclus::ValueError &) & ~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call ~$1[$0.GetElementName(idx(range($0.NElements())))].Json::Value::append(Value{Json::objectValue}') IF !$0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & ~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call Value{Json::arrayValue}.Json::Value::append(~$1[$0.GetElementName(idx(range($0.NElements())))]) IF $1.isMember($0.GetElementName(idx(range($0.NElements())))) & !~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{$0.SubTree("*",idx(range($0.NElements()))).GetString(".")}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & !caught(cyclus::ValueError &) & !~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{Json::nullValue}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & caught(cyclus::ValueError &) & !~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{Json::objectValue}') IF !$0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & $1.isMember($0.GetElementName(idx(range($0.NElements())))) & !~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] put $1.put($0.GetElementName(idx(range($0.NElements()))), Value{Json::arrayValue}) IF $1.isMember($0.GetElementName(idx(range($0.NElements())))) & !~$1[$0.GetElementName(idx(range($0.NElements())))].isArray()
  [for range($0.NElements())] put $1.put($0.GetElementName(idx(range($0.NElements()))), Value{$0.SubTree("*",idx(range($0.NElements()))).GetString(".")}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & !$1.isMember($0.GetElementName(idx(range($0.NElements())))) & !caught(cyclus::ValueError &)
  [for range($0.NElements())] put $1.put($0.GetElementName(idx(range($0.NElements()))), Value{Json::nullValue}) IF $0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & !$1.isMember($0.GetElementName(idx(range($0.NElements())))) & caught(cyclus::ValueError &)
  [for range($0.NElements())] put $1.put($0.GetElementName(idx(range($0.NElements()))), Value{Json::objectValue}') IF !$0.SubTree("*",idx(range($0.NElements()))).NElements() == 0 & !$1.isMember($0.GetElementName(idx(range($0.NElements()))))
fn cyclus::toolkit::PyToXml
  call cyclus::toolkit::PyToJson($0) IF T
  call @basic_stringstream<char>.std::ios_base::precision(std::numeric_limits<double>::max_digits10) IF T
  [for @Json::Value'.getMemberNames()] call cyclus::toolkit::AddJsonToXml(@Json::Value[elem(@Json::Value.getMemberNames())], ~ ++ "<" ++ elem(@Json::Value.getMemberNames()) ++ ">\n", elem(@Json::Value.getMemberNames()), "  ") IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isArray() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & @Json::Value'[elem(@Json::Value'.getMemberNames())].isObject() | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & @Json::Value'[elem(@Json::Value'.getMemberNames())].isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].size() == 0 | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & @Json::Value'[elem(@Json::Value'.getMemberNames())].isArray() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].size() == 0 & @Json::Value'[elem(@Json::Value'.getMemberNames())][0].isArray() | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & @Json::Value'[elem(@Json::Value'.getMemberNames())].isArray() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].size() == 0 & @Json::Value'[elem(@Json::Value'.getMemberNames())][0].isObject()
  [for @Json::Value'.getMemberNames()] call cyclus::toolkit::AddJsonToXml(@Json::Value[elem(@Json::Value.getMemberNames())], ~ ++ "<" ++ elem(@Json::Value.getMemberNames()) ++ ">", elem(@Json::Value.getMemberNames()), "  ") IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isArray() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isObject() | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isNull() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].isObject() & !@Json::Value'[elem(@Json::Value'.getMemberNames())].size() == 0 & !@Json::Value'[elem(@Json::Value'.getMemberNames())][0].isArray() & !@Json::Value'[elem(@Json::Value'.getMemberNames())][0].isObject()
  [for @Json::Value'] call cyclus::toolkit::AddJsonToXml(elem(@Json::Value), ~ ++ "".substr(0,(size("")-2)) ++ "<>\n", "", "") IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isArray() & !@Json::Value'.isObject() & elem(@Json::Value').isArray() & idx(@Json::Value') >= 1 | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isArray() & !@Json::Value'.isObject() & elem(@Json::Value').isObject() & idx(@Json::Value') >= 1
  [for @Json::Value'] call cyclus::toolkit::AddJsonToXml(elem(@Json::Value), ~ ++ "".substr(0,(size("")-2)) ++ "<>", "", "") IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isArray() & !@Json::Value'.isObject() & !elem(@Json::Value').isArray() & !elem(@Json::Value').isObject() & idx(@Json::Value') >= 1
  [for @Json::Value'] call cyclus::toolkit::AddJsonToXml(elem(@Json::Value), ~, "", "") IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isArray() & !@Json::Value'.isObject() & !idx(@Json::Value') >= 1
  ret return(fold(@Json::Value.getMemberNames(); @basic_stringstream<char>; !@Json::Value[elem(@Json::Value.getMemberNames())].isArray() & !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & !@Json::Value[elem(@Json::Value.getMemberNames())].isObject() | !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & !@Json::Value[elem(@Json::Value.getMemberNames())].isObject() & !@Json::Value[elem(@Json::Value.getMemberNames())].size() == 0 & !@Json::Value[elem(@Json::Value.getMemberNames())][0].isArray() & !@Json::Value[elem(@Json::Value.getMemberNames())][0].isObject():~ ++ "<" ++ elem(@Json::Value.getMemberNames()) ++ ">"' ++ "</" ++ elem(@Json::Value.getMemberNames()) ++ ">\n" ; !@Json::Value[elem(@Json::Value.getMemberNames())].isArray() & !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & @Json::Value[elem(@Json::Value.getMemberNames())].isObject() | !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & @Json::Value[elem(@Json::Value.getMemberNames())].isObject() & !@Json::Value[elem(@Json::Value.getMemberNames())].size() == 0 | @Json::Value[elem(@Json::Value.getMemberNames())].isArray() & !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & !@Json::Value[elem(@Json::Value.getMemberNames())].size() == 0 & @Json::Value[elem(@Json::Value.getMemberNames())][0].isArray() | @Json::Value[elem(@Json::Value.getMemberNames())].isArray() & !@Json::Value[elem(@Json::Value.getMemberNames())].isNull() & !@Json::Value[elem(@Json::Value.getMemberNames())].size() == 0 & @Json::Value[elem(@Json::Value.getMemberNames())][0].isObject():~ ++ "<" ++ elem(@Json::Value.getMemberNames()) ++ ">\n"' ++ "</" ++ elem(@Json::Value.getMemberNames()) ++ ">\n" ; @Json::Value[elem(@Json::Value.getMemberNames())].isArray() & @Json::Value[elem(@Json::Value.getMemberNames())].size() == 0 | @Json::Value[elem(@Json::Value.getMemberNames())].isNull():~ ++ "<" ++ elem(@Json::Value.getMemberNames()) ++ "/>\n")) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isObject()
  ret return(fold(@Json::Value; @basic_stringstream<char>; !(@Json::Value.size()-idx(@Json::Value)) >= 2 & !elem(@Json::Value).isArray() & !elem(@Json::Value).isObject() & idx(@Json::Value) >= 1:~ ++ "".substr(0,(size("")-2)) ++ "<>"' ; !(@Json::Value.size()-idx(@Json::Value)) >= 2 & !idx(@Json::Value) >= 1:~' ; !(@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isArray() & idx(@Json::Value) >= 1 | !(@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isObject() & idx(@Json::Value) >= 1:~ ++ "".substr(0,(size("")-2)) ++ "<>\n"' ; (@Json::Value.size()-idx(@Json::Value)) >= 2 & !elem(@Json::Value).isArray() & !elem(@Json::Value).isObject() & !idx(@Json::Value) >= 1:~' ++ "</>\n" ; (@Json::Value.size()-idx(@Json::Value)) >= 2 & !elem(@Json::Value).isArray() & !elem(@Json::Value).isObject() & idx(@Json::Value) >= 1:~ ++ "".substr(0,(size("")-2)) ++ "<>"' ++ "</>\n" ; (@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isArray() & !idx(@Json::Value) >= 1 | (@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isObject() & !idx(@Json::Value) >= 1:~' ++ "".substr(0,(size("")-2)) ++ "</>\n" ; (@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isArray() & idx(@Json::Value) >= 1 | (@Json::Value.size()-idx(@Json::Value)) >= 2 & elem(@Json::Value).isObject() & idx(@Json::Value) >= 1:~ ++ "".substr(0,(size("")-2)) ++ "<>\n"' ++ "".substr(0,(size("")-2)) ++ "</>\n")) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & @Json::Value'.isArray() & !@Json::Value'.isObject()
  ret return(@Json::Value.asString()) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & !@Json::Value'.isBool() & !@Json::Value'.isDouble() & !@Json::Value'.isInt() & !@Json::Value'.isObject() & !@Json::Value'.isUInt() | @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & !@Json::Value'.isObject() & @Json::Value'.isString()
  ret return(@Json::Value.asInt64()) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & @Json::Value'.isInt() & !@Json::Value'.isObject() & !@Json::Value'.isString()
  ret return(@Json::Value.asUInt64()) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & !@Json::Value'.isInt() & !@Json::Value'.isObject() & !@Json::Value'.isString() & @Json::Value'.isUInt()
  ret return(@Json::Value.asDouble()) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & @Json::Value'.isDouble() & !@Json::Value'.isInt() & !@Json::Value'.isObject() & !@Json::Value'.isString() & !@Json::Value'.isUInt()
  ret return(@Json::Value.asBool()) IF @Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false) & !@Json::Value'.isArray() & @Json::Value'.isBool() & !@Json::Value'.isDouble() & !@Json::Value'.isInt() & !@Json::Value'.isObject() & !@Json::Value'.isString() & !@Json::Value'.isUInt()
  throw cyclus::ValidationError() IF !@Json::Reader.parse(cyclus::toolkit::PyToJson($0),@Json::Value,false)
fn cyclus::toolkit::XmlToPy
  call new XMLParser{}.cyclus::XMLParser::Init($0) IF T
  call new XMLParser{}.cyclus::XMLParser::Document() IF T
  put @Json::Value{Json::objectValue}.put(new XMLParser{}.Document().get_root_node().get_name().operator basic_string(), Value{Json::objectValue}) IF T
  [for range(InfileTree{new XMLParser{}}.NElements())] call cyclus::toolkit::AddXmlToJson(InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))), Value{Json::objectValue}, InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) IF !InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].Json::Value::append(Value{InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).GetString(".")}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray() & !caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].Json::Value::append(Value{Json::nullValue}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray() & caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].Json::Value::append(Value{Json::objectValue}') IF !InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray()
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))]) IF Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray()
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).GetString(".")}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray() & !caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{Json::nullValue}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray() & caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] call Value{Json::arrayValue}.Json::Value::append(Value{Json::objectValue}') IF !InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray()
  [for range(InfileTree{new XMLParser{}}.NElements())] put Value{Json::objectValue}.put(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements()))), Value{Json::arrayValue}) IF Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !Value{Json::objectValue}[InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))].isArray()
  [for range(InfileTree{new XMLParser{}}.NElements())] put Value{Json::objectValue}.put(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements()))), Value{InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).GetString(".")}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & !Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & !caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] put Value{Json::objectValue}.put(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements()))), Value{Json::nullValue}) IF InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & !Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements())))) & caught(cyclus::ValueError &)
  [for range(InfileTree{new XMLParser{}}.NElements())] put Value{Json::objectValue}.put(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements()))), Value{Json::objectValue}') IF !InfileTree{new XMLParser{}}.SubTree("*",idx(range(InfileTree{new XMLParser{}}.NElements()))).NElements() == 0 & !Value{Json::objectValue}.isMember(InfileTree{new XMLParser{}}.GetElementName(idx(range(InfileTree{new XMLParser{}}.NElements()))))
  call cyclus::toolkit::JsonToPy(CustomWriter{"{","}","[","]",": ",","," ",1}.write(@Json::Value{Json::objectValue})) IF T
  ret return(cyclus::toolkit::JsonToPy(CustomWriter{"{","}","[","]",": ",","," ",1}.write(@Json::Value{Json::objectValue}))) IF T
  seq 0<1 3<11 3<14
fn cyclus::toolkit::JsonToXml
  stop: toolkit::Add
  call @basic_stringstream<char>.std::ios_base::precision(std::numeric_limits<double>::max_digits10) IF T
  call cyclus::toolkit::AddJsonToXml(@Json::Value, @basic_stringstream<char>, "", "") IF @Json::Reader.parse($0,@Json::Value,false)
  ret return(@basic_stringstream<char>) IF @Json::Reader.parse($0,@Json::Value,false)
  throw cyclus::ValidationError() IF !@Json::Reader.parse($0,@Json::Value,false)
fn cyclus::toolkit::XmlToJson
  stop: toolkit::Add
  call new XMLParser{}.cyclus::XMLParser::Init($0) IF T
  call new XMLParser{}.cyclus::XMLParser::Document() IF T
  put @Json::Value{Json::objectValue}.put(new XMLParser{}.Document().get_root_node().get_name().operator basic_string(), Value{Json::objectValue}) IF T
  call cyclus::toolkit::AddXmlToJson(@InfileTree{new XMLParser{}}, Value{Json::objectValue}, new XMLParser{}.Document().get_root_node().get_name().operator basic_string()) IF T
  ret return(CustomWriter{"{","}","[","]",": ",","," ",1}.write(@Json::Value{Json::objectValue})) IF T
  seq 0<1
