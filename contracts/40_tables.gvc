# Tables derived from the metadata: one arbitrary region and one arbitrary calling code stand for all of them.
ghost anyRegion() string
ghost anyCode() int
define lists(m, cc, r) = exists j in 0..len(m[cc]): m[cc][j] == r
define loneNonGeo(m, cc) = len(m[cc]) == 1 && m[cc][0] == "001"
define namedBy(m, cc, r) = has(m, cc) && !loneNonGeo(m, cc) && lists(m, cc, r)
define mdId(m) = if m == nil || m.Id == nil then "" else *m.Id
define mdCC(m) = if m == nil || m.CountryCode == nil then 0 else *m.CountryCode
func metadata.NewContainer(coll, countryCodeToRegion) (c, err)
  top C11
  requires coll != nil
  ensures (err == nil) == (len(coll.Metadata) != 0)
  ensures err != nil ==> c == nil
  ensures err == nil ==> c.metadataCollection == coll && c.countryCodeToRegion == countryCodeToRegion
  ensures{C11} err == nil ==> has(c.supportedRegions, anyRegion()) == c.supportedRegions[anyRegion()]
  ensures{C11} err == nil && has(c.supportedRegions, anyRegion()) ==> anyRegion() != "001" && (exists cc: int: namedBy(countryCodeToRegion, cc, anyRegion()))
  ensures{C11} err == nil && anyRegion() != "001" && namedBy(countryCodeToRegion, anyCode(), anyRegion()) ==> has(c.supportedRegions, anyRegion())
  ensures{C11} err == nil ==> has(c.supportedCallingCodes, anyCode()) == has(countryCodeToRegion, anyCode()) && has(c.supportedCallingCodes, anyCode()) == c.supportedCallingCodes[anyCode()]
  ensures{C11} err == nil ==> has(c.countryCodesForNonGeographicalRegion, anyCode()) == (has(countryCodeToRegion, anyCode()) && loneNonGeo(countryCodeToRegion, anyCode()))
  ensures{C11} err == nil ==> has(c.nanpaRegions, anyRegion()) == lists(countryCodeToRegion, 1, anyRegion())
  ensures{C11} err == nil && has(c.regionToMetadataMap, anyRegion()) ==> anyRegion() != "001" && (exists i in 0..len(coll.Metadata): c.regionToMetadataMap[anyRegion()] == coll.Metadata[i] && mdId(coll.Metadata[i]) == anyRegion())
  ensures{C11} err == nil && anyRegion() != "001" && (exists i in 0..len(coll.Metadata): mdId(coll.Metadata[i]) == anyRegion()) ==> has(c.regionToMetadataMap, anyRegion())
  ensures{C11} err == nil && has(c.countryCodeToNonGeographicalMetadataMap, anyCode()) ==> (exists i in 0..len(coll.Metadata): c.countryCodeToNonGeographicalMetadataMap[anyCode()] == coll.Metadata[i] && mdId(coll.Metadata[i]) == "001" && mdCC(coll.Metadata[i]) == anyCode())
  ensures{C11} err == nil && (exists i in 0..len(coll.Metadata): mdId(coll.Metadata[i]) == "001" && mdCC(coll.Metadata[i]) == anyCode()) ==> has(c.countryCodeToNonGeographicalMetadataMap, anyCode())
  loop{C11} m:*metadata.Container, l:[]*metadata.PhoneMetadata, i:int | has(m.regionToMetadataMap, anyRegion()) ==> anyRegion() != "001" && (exists j in 0..i: m.regionToMetadataMap[anyRegion()] == l[j] && mdId(l[j]) == anyRegion())
  loop{C11} m:*metadata.Container, l:[]*metadata.PhoneMetadata, i:int | anyRegion() != "001" && (exists j in 0..i: mdId(l[j]) == anyRegion()) ==> has(m.regionToMetadataMap, anyRegion())
  loop{C11} m:*metadata.Container, l:[]*metadata.PhoneMetadata, i:int | has(m.countryCodeToNonGeographicalMetadataMap, anyCode()) ==> (exists j in 0..i: m.countryCodeToNonGeographicalMetadataMap[anyCode()] == l[j] && mdId(l[j]) == "001" && mdCC(l[j]) == anyCode())
  loop{C11} m:*metadata.Container, l:[]*metadata.PhoneMetadata, i:int | (exists j in 0..i: mdId(l[j]) == "001" && mdCC(l[j]) == anyCode()) ==> has(m.countryCodeToNonGeographicalMetadataMap, anyCode())
  loop{C11} m:*metadata.Container, it:iter.map | has(m.supportedRegions, anyRegion()) ==> (exists cc: int: visited(it, cc) && namedBy(m.countryCodeToRegion, cc, anyRegion()))
  loop{C11} m:*metadata.Container, it:iter.map | visited(it, anyCode()) && namedBy(m.countryCodeToRegion, anyCode(), anyRegion()) ==> has(m.supportedRegions, anyRegion())
  loop{C11} m:*metadata.Container | has(m.supportedRegions, anyRegion()) == m.supportedRegions[anyRegion()]
  loop{C11} m:*metadata.Container, it:iter.map | has(m.supportedCallingCodes, anyCode()) == visited(it, anyCode()) && m.supportedCallingCodes[anyCode()] == visited(it, anyCode())
  loop{C11} m:*metadata.Container, it:iter.map | has(m.countryCodesForNonGeographicalRegion, anyCode()) == (visited(it, anyCode()) && loneNonGeo(m.countryCodeToRegion, anyCode()))
  loop{C11} m:*metadata.Container, it:iter.map, s:[]string, i:int | visited(it, anyCode()) && namedBy(m.countryCodeToRegion, anyCode(), anyRegion()) && !(exists j in i..len(s): s[j] == anyRegion()) ==> has(m.supportedRegions, anyRegion())
  loop{C11} m:*metadata.Container, s:[]string, i:int | (exists j in 0..i: s[j] == anyRegion()) ==> has(m.supportedRegions, anyRegion())
  loop{C11} m:*metadata.Container, s:[]string, i:int | has(m.nanpaRegions, anyRegion()) == (exists j in 0..i: s[j] == anyRegion())
func phonenumbers.hasValidCountryCallingCode(countryCallingCode) (r)
  top C11
func phonenumbers.GetRegionCodeForCountryCode(countryCallingCode) (r)
  top C11
func phonenumbers.isValidRegionCode(regionCode) (r)
  top C11
func phonenumbers.getMetadataForRegion(regionCode) (r)
  top C11
func phonenumbers.getMetadataForNonGeographicalRegion(countryCallingCode) (r)
  top C11
func phonenumbers.getMetadataForRegionOrCallingCode(countryCallingCode, regionCode) (r)
  top C11
func phonenumbers.GetRegionCodesForCountryCode(countryCallingCode) (r)
  top C11
  ensures{C18} r == ccRegions()[countryCallingCode]
  ensures{C11} len(r) == len(ccRegions()[countryCallingCode]) && (forall i in 0..len(r): r[i] == ccRegions()[countryCallingCode][i])
func phonenumbers.GetCountryCodeForRegion(regionCode) (r)
  top C11
  ensures r == if supported(regionCode) then mdCC(metadata.current.regionToMetadataMap[regionCode]) else 0
func phonenumbers.IsNANPACountry(regionCode) (r)
  top C11
  ensures r == has(metadata.current.nanpaRegions, regionCode)
func phonenumbers.GetSupportedRegions() (r)
  top C11
  ensures{C11} r == metadata.current.supportedRegions
func phonenumbers.GetSupportedCallingCodes() (r)
  top C11
  ensures{C11} r == metadata.current.supportedCallingCodes
func phonenumbers.GetSupportedGlobalNetworkCallingCodes() (r)
  top C11
  ensures{C11} r == metadata.current.countryCodesForNonGeographicalRegion
func metadata.Use(c) (restore)
  top C11
  modifies metadata.current
  ensures{C11} metadata.current == c
func metadata.RegionMetadata(region) (v, ok)
  top C11
  ensures v == metadata.current.regionToMetadataMap[region] && ok == has(metadata.current.regionToMetadataMap, region)
func metadata.NonGeoMetadata(countryCode) (v, ok)
  top C11
  ensures v == metadata.current.countryCodeToNonGeographicalMetadataMap[countryCode] && ok == has(metadata.current.countryCodeToNonGeographicalMetadataMap, countryCode)
