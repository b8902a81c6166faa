// Country, length, fixed check digits
{ L"AD", 24, L"" }, // Andorra
{ L"AE", 23, L"" }, // United Arab Emirates
{ L"AL", 28, L"" }, // Albania
{ L"AO", 25, L"" }, // Angola
{ L"AT", 20, L"" }, // Austria
{ L"AZ", 28, L"" }, // Azerbaijan
{ L"BA", 20, L"39" }, // Bosnia and Herzegovina
{ L"BE", 16, L"" }, // Belgium
{ L"BF", 28, L"" }, // Burkina Faso
{ L"BG", 22, L"" }, // Bulgaria
{ L"BH", 22, L"" }, // Bahrain
{ L"BI", 27, L"" }, // Burundi
{ L"BJ", 28, L"" }, // Benin
{ L"BR", 29, L"" }, // Brazil
{ L"BY", 28, L"" }, // Belarus
{ L"CF", 27, L"" }, // Central African Republic
{ L"CG", 27, L"" }, // Congo, Republic of the
{ L"CH", 21, L"" }, // Switzerland
{ L"CI", 28, L"" }, // Côte d'Ivoire
{ L"CM", 27, L"" }, // Cameroon
{ L"CR", 22, L"" }, // Costa Rica
{ L"CV", 25, L"" }, // Cabo Verde
{ L"CY", 28, L"" }, // Cyprus
{ L"CZ", 24, L"" }, // Czech Republic
{ L"DE", 22, L"" }, // Germany
{ L"DJ", 27, L"" }, // Djibouti
{ L"DK", 18, L"" }, // Denmark
{ L"DO", 28, L"" }, // Dominican Republic
{ L"DZ", 26, L"" }, // Algeria
{ L"EE", 20, L"" }, // Estonia
{ L"EG", 29, L"" }, // Egypt
{ L"ES", 24, L"" }, // Spain
{ L"FI", 18, L"" }, // Finland
{ L"FO", 18, L"" }, // Faroe Islands
{ L"FR", 27, L"" }, // France
{ L"GA", 27, L"" }, // Gabon
{ L"GB", 22, L"" }, // United Kingdom
{ L"GE", 22, L"" }, // Georgia
{ L"GI", 23, L"" }, // Gibraltar
{ L"GL", 18, L"" }, // Greenland
{ L"GQ", 27, L"" }, // Equatorial Guinea
{ L"GR", 27, L"" }, // Greece
{ L"GT", 28, L"" }, // Guatemala
{ L"GW", 25, L"" }, // Guinea-Bissau
{ L"HN", 28, L"" }, // Honduras
{ L"HR", 21, L"" }, // Croatia
{ L"HU", 28, L"" }, // Hungary
{ L"IE", 22, L"" }, // Ireland
{ L"IL", 23, L"" }, // Israel
{ L"IQ", 23, L"" }, // Iraq
{ L"IR", 26, L"" }, // Iran
{ L"IS", 26, L"" }, // Iceland
{ L"IT", 27, L"" }, // Italy
{ L"JO", 30, L"" }, // Jordan
{ L"KM", 27, L"" }, // Comoros
{ L"KW", 30, L"" }, // Kuwait
{ L"KZ", 20, L"" }, // Kazakhstan
{ L"LB", 28, L"" }, // Lebanon
{ L"LC", 32, L"" }, // Saint Lucia
{ L"LI", 21, L"" }, // Liechtenstein
{ L"LT", 20, L"" }, // Lithuania
{ L"LU", 20, L"" }, // Luxembourg
{ L"LV", 21, L"" }, // Latvia
{ L"LY", 25, L"" }, // Libya
{ L"MA", 28, L"" }, // Morocco
{ L"MC", 27, L"" }, // Monaco
{ L"MD", 24, L"" }, // Moldova
{ L"ME", 22, L"25" }, // Montenegro
{ L"MG", 27, L"" }, // Madagascar
{ L"MK", 19, L"07" }, // North Macedonia
{ L"ML", 28, L"" }, // Mali
{ L"MR", 27, L"13" }, // Mauritania
{ L"MT", 31, L"" }, // Malta
{ L"MU", 30, L"" }, // Mauritius
{ L"MZ", 25, L"" }, // Mozambique
{ L"NE", 28, L"" }, // Niger
{ L"NI", 32, L"" }, // Nicaragua
{ L"NL", 18, L"" }, // Netherlands
{ L"NO", 15, L"" }, // Norway
{ L"PK", 24, L"" }, // Pakistan
{ L"PL", 28, L"" }, // Poland
{ L"PS", 29, L"" }, // Palestinian territories
{ L"PT", 25, L"50" }, // Portugal
{ L"QA", 29, L"" }, // Qatar
{ L"RO", 24, L"" }, // Romania
{ L"RS", 22, L"35" }, // Serbia
{ L"RU", 33, L"" }, // Russia
{ L"SA", 24, L"" }, // Saudi Arabia
{ L"SC", 31, L"" }, // Seychelles
{ L"SD", 18, L"" }, // Sudan
{ L"SE", 24, L"" }, // Sweden
{ L"SI", 19, L"56" }, // Slovenia
{ L"SK", 24, L"" }, // Slovakia
{ L"SM", 27, L"" }, // San Marino
{ L"SN", 28, L"" }, // Senegal
{ L"ST", 25, L"" }, // São Tomé and Príncipe
{ L"SV", 28, L"" }, // El Salvador
{ L"TD", 27, L"" }, // Chad
{ L"TG", 28, L"" }, // Togo
{ L"TL", 23, L"38" }, // East Timor
{ L"TN", 24, L"59" }, // Tunisia
{ L"TR", 26, L"" }, // Turkey
{ L"UA", 29, L"" }, // Ukraine
{ L"VA", 22, L"" }, // Vatican City
{ L"VG", 24, L"" }, // Virgin Islands, British
{ L"XK", 20, L"" }, // Kosovo
