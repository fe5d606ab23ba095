# RFC3966 phone contexts and the text that is analysed as the number.
regex globalNumber = "^\\+[\\p{Nd}.()\\-]*\\p{Nd}[\\p{Nd}.()\\-]*$"
regex domainName = "^(?:[A-Za-z\\p{Nd}](?:[A-Za-z\\p{Nd}\\-]*[A-Za-z\\p{Nd}])?\\.)*[A-Za-z](?:[A-Za-z\\p{Nd}\\-]*[A-Za-z\\p{Nd}])?\\.?$"
define ctxParam(s) = indexof(s, ";phone-context=")
define upTo(s, sep) = if contains(s, sep) then s[:indexof(s, sep)] else s
define ctxText(s) = upTo(s[ctxParam(s) + 15:], ";")
define ctxOK(c) = c != "" && (rematch(globalNumber(), c) || rematch(domainName(), c))
define telEnd(s) = if contains(s, "tel:") && indexof(s, "tel:") < ctxParam(s) then indexof(s, "tel:") + 4 else 0
define dropSub(s) = if indexof(s, ";isub=") > 0 then s[:indexof(s, ";isub=")] else s
define analysed(s) = dropSub(if ctxParam(s) >= 0 then (if prefix("+", ctxText(s)) then ctxText(s) else "") ++ s[telEnd(s):ctxParam(s)] else phonenumbers.extractPossibleNumber(s))
func phonenumbers.extractPossibleNumber(number) (r)
  pure
func phonenumbers.extractPhoneContext(numberToExtractFrom, indexOfPhoneContext) (r)
  top C22
  let s = numberToExtractFrom
  let i = indexOfPhoneContext
  requires i == -1 || i >= 0 && i + 15 <= len(s)
  ensures i == -1 ==> r == ""
  ensures i >= 0 ==> r == upTo(s[i + 15:], ";")
func phonenumbers.isPhoneContextValid(phoneContext) (r)
  top C22
  ensures r == ctxOK(phoneContext)
func phonenumbers.buildNationalNumberForParsing(numberToParse, nationalNumber) (e)
  top C22
  requires nationalNumber != nil && content(nationalNumber) == ""
  modifies content(nationalNumber)
  ensures ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures ctxParam(numberToParse) < 0 || ctxOK(ctxText(numberToParse)) ==> e == nil && content(nationalNumber) == analysed(numberToParse)
