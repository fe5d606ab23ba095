# Parsing of numbers.
regex anyPlus = "[+\uFF0B]"
regex plusStart = "^[+\uFF0B]"
regex plusOnlyFirst = "(?s)^(?:[+\uFF0B]|[^+\uFF0B]*$)"
relemma anyPlus & plusOnlyFirst ==> plusStart
define intl(s) = rematch(plusStart(), s)
define noPlus(s) = if intl(s) then s[reend(pat(plusCharsPattern), s):] else s
define viable(s) = len(s) >= 2 && rematch(pat(validPhoneNumberPattern), s)
define extAt(s) = restart(pat(extnPattern), s)
define mdCode(m) = if m == nil || m.CountryCode == nil then 0 else *m.CountryCode
define mdRule(m) = if m == nil || m.NationalPrefixTransformRule == nil then "" else *m.NationalPrefixTransformRule
define mdNPFP(m) = if m == nil || m.NationalPrefixForParsing == nil then "" else *m.NationalPrefixForParsing
# What removing the national prefix makes of a number, and when it is removed.
define nppOf(m) = "^(?:" ++ mdNPFP(m) ++ ")"
define natOf(m) = "^(?:" ++ (if m == nil || m.GeneralDesc == nil || m.GeneralDesc.NationalNumberPattern == nil then "" else *m.GeneralDesc.NationalNumberPattern) ++ ")$"
define without(m, s) = if mdRule(m) == "" || gstart(nppOf(m), s, regroups(nppOf(m))) < 0 then s[reend(nppOf(m), s):] else rerepl(nppOf(m), s, mdRule(m))
define strips(m, s) = s != "" && mdNPFP(m) != "" && rematch(nppOf(m), s) && (rematch(natOf(m), s) ==> rematch(natOf(m), without(m, s)))
define shed(m, s) = if strips(m, s) then without(m, s) else s
define iddFits(p, s) = rematch(p, s) && restart(p, s) == 0 && !prefix("0", s[reend(p, s):])
define iddOf(m) = if m == nil then "NonMatch" else (if m.InternationalPrefix == nil then "" else *m.InternationalPrefix)
# The digits d are the calling code c and then n, directly or after the region's international prefix; a
# calling code without either is the region's own, and its national prefix is removed as well.
define starts(c, d) = prefix(itoa(c), d)
define after(c, d) = d[len(itoa(c)):]
define afterIdd(m, d) = d[reend(iddOf(m), d):]
define fitsIdd(m, d) = iddFits(iddOf(m), d)
define behind(d, c, n) = starts(c, d) && n == after(c, d)
define coded(m, d, c, n, plus) = if plus then behind(d, c, n) else (if fitsIdd(m, d) then behind(afterIdd(m, d), c, n) else m != nil && c == mdCode(m) && starts(c, d) && n == shed(m, after(c, d)))
define keptDigits(s) = all("0-9", s)
func phonenumbers.isViablePhoneNumber(number) (r)
  pure
  ensures r == viable(number)
func phonenumbers.checkRegionForParsing(numberToParse, defaultRegion) (r)
  ensures r == (supported(defaultRegion) || rematch(anyPlus(), numberToParse))
func phonenumbers.maybeStripExtension(number) (r)
  requires number != nil
  modifies content(number)
  let s = content(number)
  ensures r == "" ==> content(number) == s
  ensures r != "" ==> rematch(pat(extnPattern), s) && viable(s[:extAt(s)]) && content(number) == s[:extAt(s)]
  ensures viable(s) ==> viable(content(number))
  ensures viable(s) && intl(s) ==> intl(content(number))
  loop b:*stringbuilder.Builder | content(b) == s
func phonenumbers.parsePrefixAsIdd(iddPattern, number) (r)
  requires iddPattern != nil && number != nil
  modifies content(number)
  let s = content(number)
  ensures !r ==> content(number) == s
  ensures{C04} keptDigits(s) ==> r == iddFits(pat(iddPattern), s)
  ensures r ==> rematch(pat(iddPattern), s) && restart(pat(iddPattern), s) == 0 && content(number) == s[reend(pat(iddPattern), s):]
func phonenumbers.maybeStripInternationalPrefixAndNormalize(number, possibleIddPrefix) (r)
  requires number != nil
  modifies content(number)
  let s = content(number)
  ensures r == PhoneNumber_FROM_DEFAULT_COUNTRY || r == PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN || r == PhoneNumber_FROM_NUMBER_WITH_IDD
  ensures (r == PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN) == intl(s)
  ensures r == PhoneNumber_FROM_NUMBER_WITH_PLUS_SIGN || r == PhoneNumber_FROM_DEFAULT_COUNTRY && s != "" ==> content(number) == phonenumbers.normalize(noPlus(s))
  ensures r == PhoneNumber_FROM_NUMBER_WITH_IDD ==> suffix(content(number), phonenumbers.normalize(noPlus(s)))
  ensures s == "" ==> content(number) == ""
  ensures{C04} s != "" && !intl(s) ==> let d = phonenumbers.normalize(s) in (r == PhoneNumber_FROM_NUMBER_WITH_IDD) == iddFits(possibleIddPrefix, d) && content(number) == (if iddFits(possibleIddPrefix, d) then d[reend(possibleIddPrefix, d):] else d)
  ensures{C04,C05,C22} keptDigits(content(number))
func phonenumbers.maybeStripNationalPrefixAndCarrierCode(number, metadata, carrierCode) (r)
  requires number != nil && number != carrierCode
  modifies content(number), content(carrierCode)
  let s = content(number)
  let npp = "^(?:" ++ mdNPFP(metadata) ++ ")"
  assumes{C04} keptDigits(s) && mdRule(metadata) != "" ==> keptDigits(rerepl(npp, s, mdRule(metadata)))
  ensures{C04} r == strips(metadata, s)
  ensures{C04} content(number) == shed(metadata, s)
  ensures !r ==> content(number) == s
  ensures mdRule(metadata) == "" ==> suffix(content(number), s)
  ensures mdRule(metadata) != "" ==> suffix(content(number), s) || content(number) == rerepl(npp, s, mdRule(metadata))
  ensures{C04} keptDigits(s) ==> keptDigits(content(number))
func phonenumbers.setItalianLeadingZerosForPhoneNumber(nationalNum, phoneNumber)
  requires phoneNumber != nil && phoneNumber.NumberOfLeadingZeros == nil && phoneNumber.ItalianLeadingZero == nil
  modifies phoneNumber.ItalianLeadingZero, phoneNumber.NumberOfLeadingZeros
  ensures len(nationalNum) < 18 ==> nationalNum[:nzeros(phoneNumber)] == zeros(nzeros(phoneNumber)) && nzeros(phoneNumber) <= len(nationalNum) && (nationalNum != "" ==> nzeros(phoneNumber) < len(nationalNum))
  ensures len(nationalNum) < 18 && nationalNum != "" ==> nzeros(phoneNumber) == len(nationalNum) - 1 || nationalNum[nzeros(phoneNumber)] != '0'
  ensures{C04} len(nationalNum) < 18 && nationalNum != "" && keptDigits(nationalNum) ==> zeros(nzeros(phoneNumber)) ++ dec(parseuint(nationalNum)) == nationalNum
  loop s:string, i:int | s[:i] == zeros(i)
  loop s:string, i:int | 1 <= i && i < len(s)
func phonenumbers.normalize(number) (r)
  pure
func phonenumbers.maybeExtractCountryCode(number, defaultRegionMetadata, nationalNumber, keepRawInput, phoneNumber) (cc, err)
  requires nationalNumber != nil && content(nationalNumber) == "" && phoneNumber != nil
  requires defaultRegionMetadata == nil || mdCode(defaultRegionMetadata) != 0
  modifies content(nationalNumber), phoneNumber.CountryCode, phoneNumber.CountryCodeSource
  ensures err == nil || err == ErrInvalidCountryCode || err == ErrTooShortAfterIDD
  ensures err != nil || cc == 0 ==> content(nationalNumber) == ""
  ensures err == nil && cc != 0 ==> (knownCC(cc) || cc == mdCode(defaultRegionMetadata)) && phoneNumber.CountryCode != nil && *phoneNumber.CountryCode == cc
  ensures err == nil && cc == 0 && number != "" ==> !intl(number) && phoneNumber.CountryCode != nil && *phoneNumber.CountryCode == 0
  ensures number == "" ==> err == nil && cc == 0 && phoneNumber.CountryCodeSource == old(phoneNumber.CountryCodeSource)
  ensures keepRawInput && number != "" ==> phoneNumber.CountryCodeSource != nil
  ensures !keepRawInput ==> phoneNumber.CountryCodeSource == old(phoneNumber.CountryCodeSource)
  ensures mdRule(defaultRegionMetadata) == "" ==> suffix(content(nationalNumber), phonenumbers.normalize(noPlus(number)))
  ensures{C04} keptDigits(content(nationalNumber))
  ensures{C04} err == nil && cc != 0 ==> coded(defaultRegionMetadata, phonenumbers.normalize(noPlus(number)), cc, content(nationalNumber), intl(number))
func phonenumbers.extractCountryCode(fullNumber, nationalNumber) (r)
  ensures r != 0 ==> knownCC(r)
  ensures all("0-9", content(fullNumber)) ==> 0 <= r && r <= 999
  ensures r == 0 && all("0-9", content(fullNumber)) ==> content(nationalNumber) == old(content(nationalNumber))
  ensures{C04} r != 0 && all("0-9", content(fullNumber)) ==> prefix(dec(r), content(fullNumber)) && content(nationalNumber) == old(content(nationalNumber)) ++ content(fullNumber)[len(dec(r)):]
  ensures r != 0 ==> exists k in 0..4: k <= len(content(fullNumber)) && content(nationalNumber) == old(content(nationalNumber)) ++ content(fullNumber)[k:]
define parsedText(s, n) = if n.Extension == nil then analysed(s) else analysed(s)[:extAt(analysed(s))]
# y is what is left of the digits d for calling code c: nothing but the calling code, the international
# prefix of the default region (m) and the national prefix of the number's own region (mc) is removed.
define left(m, x, y) = y == x || m != nil && y == shed(m, x)
define numberMD(region, c) = if mainRegion(c) == region then regionMD(region) else mdFor(c, mainRegion(c))
define leftOf(m, mc, d, c, y) = starts(c, d) && left(mc, after(c, d), y) || fitsIdd(m, d) && starts(c, afterIdd(m, d)) && left(mc, after(c, afterIdd(m, d)), y) || m != nil && c == mdCode(m) && starts(c, d) && left(mc, shed(m, after(c, d)), y) || c == mdCode(m) && left(m, d, y)
func phonenumbers.parseHelper(numberToParse, defaultRegion, keepRawInput, checkRegion, phoneNumber) (e)
  top C04, C05, C22
  paths{C04} 500
  opaque{C04} analysed, regionMD, mdFor, mainRegion, knownCC, shed, starts, after, afterIdd, fitsIdd
  requires phoneNumber != nil
  modifies fields(phoneNumber)
  assumes{C04,C05,C22} regionMD(defaultRegion) != nil ==> mdCode(regionMD(defaultRegion)) != 0 && knownCC(mdCode(regionMD(defaultRegion)))
  assumes{C04,C05,C22} supported(defaultRegion) ==> regionMD(defaultRegion) != nil
  ensures{C22} len(numberToParse) > 0 && len(numberToParse) <= 250 && ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures{C22} e == nil ==> viable(analysed(numberToParse))
  ensures{C05} numberToParse == "" ==> e == ErrNotANumber
  ensures{C05} len(numberToParse) > 250 ==> e == ErrNumTooLong
  ensures{C05} e == nil || e == ErrNotANumber || e == ErrNumTooLong || e == ErrInvalidCountryCode || e == ErrTooShortAfterIDD || e == ErrTooShortNSN
  ensures{C05} e == nil && checkRegion ==> fCC(phoneNumber) != 0 && knownCC(fCC(phoneNumber))
  ensures{C05} e == nil && keepRawInput ==> phoneNumber.RawInput != nil && *phoneNumber.RawInput == numberToParse
  ensures{C05} e == nil && keepRawInput && checkRegion ==> phoneNumber.CountryCodeSource != nil
  ensures{C05} e == nil && !keepRawInput ==> phoneNumber.RawInput == nil && phoneNumber.CountryCodeSource == nil && phoneNumber.PreferredDomesticCarrierCode == nil
  ensures{C05} e == nil && checkRegion && !supported(defaultRegion) ==> intl(analysed(numberToParse))
  ensures{C04} e == nil ==> len(nsn(phoneNumber)) >= 2 && len(nsn(phoneNumber)) <= 17 && keptDigits(nsn(phoneNumber))
  ensures{C04} e == nil && mdRule(regionMD(defaultRegion)) == "" && mdRule(mdFor(fCC(phoneNumber), mainRegion(fCC(phoneNumber)))) == "" ==> suffix(nsn(phoneNumber), phonenumbers.normalize(noPlus(parsedText(numberToParse, phoneNumber))))
  ensures{C04} e == nil && fCC(phoneNumber) != 0 ==> leftOf(regionMD(defaultRegion), numberMD(defaultRegion, fCC(phoneNumber)), phonenumbers.normalize(noPlus(parsedText(numberToParse, phoneNumber))), fCC(phoneNumber), nsn(phoneNumber))
  ensures{C04} e == nil && fCC(phoneNumber) == 0 ==> left(regionMD(defaultRegion), phonenumbers.normalize(noPlus(parsedText(numberToParse, phoneNumber))), nsn(phoneNumber))
func phonenumbers.ParseToNumber(numberToParse, defaultRegion, phoneNumber) (e)
  top C04, C05, C22
  opaque{C04} analysed, regionMD, mdFor, mainRegion, knownCC, shed, starts, after, afterIdd, fitsIdd
  requires phoneNumber != nil
  modifies fields(phoneNumber)
  assumes{C04,C05,C22} regionMD(defaultRegion) != nil ==> mdCode(regionMD(defaultRegion)) != 0 && knownCC(mdCode(regionMD(defaultRegion)))
  assumes{C04,C05,C22} supported(defaultRegion) ==> regionMD(defaultRegion) != nil
  ensures{C05} numberToParse == "" ==> e == ErrNotANumber
  ensures{C05} len(numberToParse) > 250 ==> e == ErrNumTooLong
  ensures{C05} e == nil || e == ErrNotANumber || e == ErrNumTooLong || e == ErrInvalidCountryCode || e == ErrTooShortAfterIDD || e == ErrTooShortNSN
  ensures{C05} e == nil ==> fCC(phoneNumber) != 0 && knownCC(fCC(phoneNumber))
  ensures{C05} e == nil && !supported(defaultRegion) ==> intl(analysed(numberToParse))
  ensures{C05} e == nil ==> phoneNumber.RawInput == nil && phoneNumber.CountryCodeSource == nil && phoneNumber.PreferredDomesticCarrierCode == nil
  ensures{C04} e == nil ==> len(nsn(phoneNumber)) >= 2 && len(nsn(phoneNumber)) <= 17 && keptDigits(nsn(phoneNumber))
  ensures{C04} e == nil && fCC(phoneNumber) != 0 ==> leftOf(regionMD(defaultRegion), numberMD(defaultRegion, fCC(phoneNumber)), phonenumbers.normalize(noPlus(parsedText(numberToParse, phoneNumber))), fCC(phoneNumber), nsn(phoneNumber))
  ensures{C22} len(numberToParse) > 0 && len(numberToParse) <= 250 && ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures{C22} e == nil ==> viable(analysed(numberToParse))
func phonenumbers.ParseAndKeepRawInputToNumber(numberToParse, defaultRegion, phoneNumber) (e)
  top C04, C05, C22
  opaque{C04} analysed, regionMD, mdFor, mainRegion, knownCC, shed, starts, after, afterIdd, fitsIdd
  requires phoneNumber != nil
  modifies fields(phoneNumber)
  assumes{C04,C05,C22} regionMD(defaultRegion) != nil ==> mdCode(regionMD(defaultRegion)) != 0 && knownCC(mdCode(regionMD(defaultRegion)))
  assumes{C04,C05,C22} supported(defaultRegion) ==> regionMD(defaultRegion) != nil
  ensures{C05} numberToParse == "" ==> e == ErrNotANumber
  ensures{C05} len(numberToParse) > 250 ==> e == ErrNumTooLong
  ensures{C05} e == nil || e == ErrNotANumber || e == ErrNumTooLong || e == ErrInvalidCountryCode || e == ErrTooShortAfterIDD || e == ErrTooShortNSN
  ensures{C05} e == nil ==> fCC(phoneNumber) != 0 && knownCC(fCC(phoneNumber))
  ensures{C05} e == nil && !supported(defaultRegion) ==> intl(analysed(numberToParse))
  ensures{C05} e == nil ==> phoneNumber.RawInput != nil && *phoneNumber.RawInput == numberToParse && phoneNumber.CountryCodeSource != nil
  ensures{C04} e == nil ==> len(nsn(phoneNumber)) >= 2 && len(nsn(phoneNumber)) <= 17 && keptDigits(nsn(phoneNumber))
  ensures{C04} e == nil && fCC(phoneNumber) != 0 ==> leftOf(regionMD(defaultRegion), numberMD(defaultRegion, fCC(phoneNumber)), phonenumbers.normalize(noPlus(parsedText(numberToParse, phoneNumber))), fCC(phoneNumber), nsn(phoneNumber))
  ensures{C22} len(numberToParse) > 0 && len(numberToParse) <= 250 && ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures{C22} e == nil ==> viable(analysed(numberToParse))
func phonenumbers.Parse(numberToParse, defaultRegion) (n, e)
  top C04, C05, C22
  opaque{C04} analysed, regionMD, mdFor, mainRegion, knownCC, shed, starts, after, afterIdd, fitsIdd
  fresh n
  assumes{C04,C05,C22} regionMD(defaultRegion) != nil ==> mdCode(regionMD(defaultRegion)) != 0 && knownCC(mdCode(regionMD(defaultRegion)))
  assumes{C04,C05,C22} supported(defaultRegion) ==> regionMD(defaultRegion) != nil
  ensures n != nil
  ensures{C05} numberToParse == "" ==> e == ErrNotANumber
  ensures{C05} len(numberToParse) > 250 ==> e == ErrNumTooLong
  ensures{C05} e == nil || e == ErrNotANumber || e == ErrNumTooLong || e == ErrInvalidCountryCode || e == ErrTooShortAfterIDD || e == ErrTooShortNSN
  ensures{C05} e == nil ==> fCC(n) != 0 && knownCC(fCC(n))
  ensures{C05} e == nil && !supported(defaultRegion) ==> intl(analysed(numberToParse))
  ensures{C05} e == nil ==> n.RawInput == nil && n.CountryCodeSource == nil && n.PreferredDomesticCarrierCode == nil
  ensures{C04} e == nil ==> len(nsn(n)) >= 2 && len(nsn(n)) <= 17 && keptDigits(nsn(n))
  ensures{C04} e == nil && fCC(n) != 0 ==> leftOf(regionMD(defaultRegion), numberMD(defaultRegion, fCC(n)), phonenumbers.normalize(noPlus(parsedText(numberToParse, n))), fCC(n), nsn(n))
  ensures{C22} len(numberToParse) > 0 && len(numberToParse) <= 250 && ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures{C22} e == nil ==> viable(analysed(numberToParse))
func phonenumbers.ParseAndKeepRawInput(numberToParse, defaultRegion) (n, e)
  top C04, C05, C22
  opaque{C04} analysed, regionMD, mdFor, mainRegion, knownCC, shed, starts, after, afterIdd, fitsIdd
  fresh n
  assumes{C04,C05,C22} regionMD(defaultRegion) != nil ==> mdCode(regionMD(defaultRegion)) != 0 && knownCC(mdCode(regionMD(defaultRegion)))
  assumes{C04,C05,C22} supported(defaultRegion) ==> regionMD(defaultRegion) != nil
  ensures n != nil
  ensures{C05} numberToParse == "" ==> e == ErrNotANumber
  ensures{C05} len(numberToParse) > 250 ==> e == ErrNumTooLong
  ensures{C05} e == nil || e == ErrNotANumber || e == ErrNumTooLong || e == ErrInvalidCountryCode || e == ErrTooShortAfterIDD || e == ErrTooShortNSN
  ensures{C05} e == nil ==> fCC(n) != 0 && knownCC(fCC(n))
  ensures{C05} e == nil && !supported(defaultRegion) ==> intl(analysed(numberToParse))
  ensures{C05} e == nil ==> n.RawInput != nil && *n.RawInput == numberToParse && n.CountryCodeSource != nil
  ensures{C04} e == nil ==> len(nsn(n)) >= 2 && len(nsn(n)) <= 17 && keptDigits(nsn(n))
  ensures{C04} e == nil && fCC(n) != 0 ==> leftOf(regionMD(defaultRegion), numberMD(defaultRegion, fCC(n)), phonenumbers.normalize(noPlus(parsedText(numberToParse, n))), fCC(n), nsn(n))
  ensures{C22} len(numberToParse) > 0 && len(numberToParse) <= 250 && ctxParam(numberToParse) >= 0 && !ctxOK(ctxText(numberToParse)) ==> e == ErrNotANumber
  ensures{C22} e == nil ==> viable(analysed(numberToParse))
