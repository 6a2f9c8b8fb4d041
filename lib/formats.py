"""The declared behaviour of every document format (see DESIGN.md, P24/P25)."""
F = {'txt': {'escape': ['[\\]\\[\\\\/@<>^${}]'],
         'space': ['[ \\n\\t\\r~]'],
         'caseless': True,
         'rules': [{'begin': ['(?:(?:(?:\\\n\\\n))|(?:(?:\\\r\\\n\\\r\\\n)))+'], 'end': None, 'eos': True, 'eoh': False, 'prio': 1}],
         'entities': []},
 'html': {'escape': ['[\\]\\[^@\\\\/${}]'],
          'space': ['[ \\n\\t\\r<>~]'],
          'caseless': True,
          'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                    {'begin': ['(?:\\{\\{)'], 'end': ['(?:\\}\\})'], 'eos': False, 'eoh': False, 'prio': 1},
                    {'begin': ['(?:<script)(?:\\ [^>]*)?>'], 'end': ['(?:</script)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<apertium\\-notrans)(?:\\ [^>]*)?>'], 'end': ['(?:</apertium\\-notrans>)'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<style)(?:\\ [^>]*)?>'], 'end': ['(?:</style)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<br)(?:\\ [^>]*)?>', '(?:<hr)(?:\\ [^>]*)?>', '(?:<p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:<li)(?:\\ [^>]*)?>', '(?:<ul)(?:\\ [^>]*)?>', '(?:<ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:<tr)(?:\\ [^>]*)?>', '(?:<td)(?:\\ [^>]*)?>', '(?:<th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</br)(?:\\ [^>]*)?>', '(?:</hr)(?:\\ [^>]*)?>', '(?:</p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</li)(?:\\ [^>]*)?>', '(?:</ul)(?:\\ [^>]*)?>', '(?:</ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</tr)(?:\\ [^>]*)?>', '(?:</td)(?:\\ [^>]*)?>', '(?:</th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:<title)(?:\\ [^>]*)?>', '(?:<div)(?:\\ [^>]*)?>', '(?:<option)(?:\\ [^>]*)?>', '(?:<h)[1-6](?:\\ [^>]*)?>'],
                     'end': None,
                     'eos': True,
                     'eoh': False,
                     'prio': 3},
                    {'begin': ['(?:</div)(?:\\ [^>]*)?>', '(?:</option)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</title)(?:\\ [^>]*)?>', '(?:</h)[1-6](?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': True, 'prio': 3},
                    {'begin': ['<(?:(?:img)|(?:link))(?:\\ [^>]*)?>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                    {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                    {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5}],
          'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'],
                        {'&Agrave;': 'À',
                         '&#192;': 'À',
                         '&#xC0;': 'À',
                         '&#xc0;': 'À',
                         '&Aacute;': 'Á',
                         '&#193;': 'Á',
                         '&#xC1;': 'Á',
                         '&#xc1;': 'Á',
                         '&Acirc;': 'Â',
                         '&#194;': 'Â',
                         '&#xC2;': 'Â',
                         '&#xc2;': 'Â',
                         '&Atilde;': 'Ã',
                         '&#195;': 'Ã',
                         '&#xC3;': 'Ã',
                         '&#xc3;': 'Ã',
                         '&Auml;': 'Ä',
                         '&#196;': 'Ä',
                         '&#xC4;': 'Ä',
                         '&#xc4;': 'Ä',
                         '&Aring;': 'Å',
                         '&#197;': 'Å',
                         '&#xC5;': 'Å',
                         '&#xc5;': 'Å',
                         '&AElig;': 'Æ',
                         '&#198;': 'Æ',
                         '&#xC6;': 'Æ',
                         '&#xc6;': 'Æ',
                         '&Ccedil;': 'Ç',
                         '&#199;': 'Ç',
                         '&#xC7;': 'Ç',
                         '&#xc7;': 'Ç',
                         '&Egrave;': 'È',
                         '&#200;': 'È',
                         '&#xC8;': 'È',
                         '&#xc8;': 'È',
                         '&Eacute;': 'É',
                         '&#201;': 'É',
                         '&#xC9;': 'É',
                         '&#xc9;': 'É',
                         '&Ecirc;': 'Ê',
                         '&#202;': 'Ê',
                         '&#xCA;': 'Ê',
                         '&#xca;': 'Ê',
                         '&Euml;': 'Ë',
                         '&#203;': 'Ë',
                         '&#xCB;': 'Ë',
                         '&#xcb;': 'Ë',
                         '&Igrave;': 'Ì',
                         '&#204;': 'Ì',
                         '&#xCC;': 'Ì',
                         '&#xcc;': 'Ì',
                         '&Iacute;': 'Í',
                         '&#205;': 'Í',
                         '&#xCD;': 'Í',
                         '&#xcd;': 'Í',
                         '&Icirc;': 'Î',
                         '&#206;': 'Î',
                         '&#xCE;': 'Î',
                         '&#xce;': 'Î',
                         '&Iuml;': 'Ï',
                         '&#207;': 'Ï',
                         '&#xCF;': 'Ï',
                         '&#xcf;': 'Ï',
                         '&ETH;': 'Ð',
                         '&#208;': 'Ð',
                         '&#xD0;': 'Ð',
                         '&#xd0;': 'Ð',
                         '&Ntilde;': 'Ñ',
                         '&#209;': 'Ñ',
                         '&#xD1;': 'Ñ',
                         '&#xd1;': 'Ñ',
                         '&Ograve;': 'Ò',
                         '&#210;': 'Ò',
                         '&#xD2;': 'Ò',
                         '&#xd2;': 'Ò',
                         '&Oacute;': 'Ó',
                         '&#211;': 'Ó',
                         '&#xD3;': 'Ó',
                         '&#xd3;': 'Ó',
                         '&Ocirc;': 'Ô',
                         '&#212;': 'Ô',
                         '&#xD4;': 'Ô',
                         '&#xd4;': 'Ô',
                         '&Otilde;': 'Õ',
                         '&#213;': 'Õ',
                         '&#xD5;': 'Õ',
                         '&#xd5;': 'Õ',
                         '&Ouml;': 'Ö',
                         '&#214;': 'Ö',
                         '&#xD6;': 'Ö',
                         '&#xd6;': 'Ö',
                         '&Oslash;': 'Ø',
                         '&#216;': 'Ø',
                         '&#xD8;': 'Ø',
                         '&#xd8;': 'Ø',
                         '&Ugrave;': 'Ù',
                         '&#217;': 'Ù',
                         '&#xD9;': 'Ù',
                         '&#xd9;': 'Ù',
                         '&Uacute;': 'Ú',
                         '&#218;': 'Ú',
                         '&#xDA;': 'Ú',
                         '&#xda;': 'Ú',
                         '&Ucirc;': 'Û',
                         '&#219;': 'Û',
                         '&#xDB;': 'Û',
                         '&#xdb;': 'Û',
                         '&Uuml;': 'Ü',
                         '&#220;': 'Ü',
                         '&#xDC;': 'Ü',
                         '&#xdc;': 'Ü',
                         '&Yacute;': 'Ý',
                         '&#221;': 'Ý',
                         '&#xDD;': 'Ý',
                         '&#xdd;': 'Ý',
                         '&THORN;': 'Þ',
                         '&#222;': 'Þ',
                         '&#xDE;': 'Þ',
                         '&#xde;': 'Þ',
                         '&szlig;': 'ß',
                         '&#223;': 'ß',
                         '&#xDF;': 'ß',
                         '&#xdf;': 'ß',
                         '&agrave;': 'à',
                         '&#224;': 'à',
                         '&#xE0;': 'à',
                         '&#xe0;': 'à',
                         '&aacute;': 'á',
                         '&#225;': 'á',
                         '&#xE1;': 'á',
                         '&#xe1;': 'á',
                         '&acirc;': 'â',
                         '&#226;': 'â',
                         '&#xE2;': 'â',
                         '&#xe2;': 'â',
                         '&atilde;': 'ã',
                         '&#227;': 'ã',
                         '&#xE3;': 'ã',
                         '&#xe3;': 'ã',
                         '&auml;': 'ä',
                         '&#228;': 'ä',
                         '&#xE4;': 'ä',
                         '&#xe4;': 'ä',
                         '&aring;': 'å',
                         '&#229;': 'å',
                         '&#xE5;': 'å',
                         '&#xe5;': 'å',
                         '&aelig;': 'æ',
                         '&#230;': 'æ',
                         '&#xE6;': 'æ',
                         '&#xe6;': 'æ',
                         '&ccedil;': 'ç',
                         '&#231;': 'ç',
                         '&#xE7;': 'ç',
                         '&#xe7;': 'ç',
                         '&egrave;': 'è',
                         '&#232;': 'è',
                         '&#xE8;': 'è',
                         '&#xe8;': 'è',
                         '&eacute;': 'é',
                         '&#233;': 'é',
                         '&#xE9;': 'é',
                         '&#xe9;': 'é',
                         '&ecirc;': 'ê',
                         '&#234;': 'ê',
                         '&#xEA;': 'ê',
                         '&#xea;': 'ê',
                         '&euml;': 'ë',
                         '&#235;': 'ë',
                         '&#xEB;': 'ë',
                         '&#xeb;': 'ë',
                         '&igrave;': 'ì',
                         '&#236;': 'ì',
                         '&#xEC;': 'ì',
                         '&#xec;': 'ì',
                         '&iacute;': 'í',
                         '&#237;': 'í',
                         '&#xED;': 'í',
                         '&#xed;': 'í',
                         '&icirc;': 'î',
                         '&#238;': 'î',
                         '&#xEE;': 'î',
                         '&#xee;': 'î',
                         '&iuml;': 'ï',
                         '&#239;': 'ï',
                         '&#xEF;': 'ï',
                         '&#xef;': 'ï',
                         '&eth;': 'ð',
                         '&#240;': 'ð',
                         '&#xF0;': 'ð',
                         '&#xf0;': 'ð',
                         '&ntilde;': 'ñ',
                         '&#241;': 'ñ',
                         '&#xF1;': 'ñ',
                         '&#xf1;': 'ñ',
                         '&ograve;': 'ò',
                         '&#242;': 'ò',
                         '&#xF2;': 'ò',
                         '&#xf2;': 'ò',
                         '&oacute;': 'ó',
                         '&#243;': 'ó',
                         '&#xF3;': 'ó',
                         '&#xf3;': 'ó',
                         '&ocirc;': 'ô',
                         '&#244;': 'ô',
                         '&#xF4;': 'ô',
                         '&#xf4;': 'ô',
                         '&otilde;': 'õ',
                         '&#245;': 'õ',
                         '&#xF5;': 'õ',
                         '&#xf5;': 'õ',
                         '&ouml;': 'ö',
                         '&#246;': 'ö',
                         '&#xF6;': 'ö',
                         '&#xf6;': 'ö',
                         '&oslash;': 'ø',
                         '&#248;': 'ø',
                         '&#xF8;': 'ø',
                         '&#xf8;': 'ø',
                         '&ugrave;': 'ù',
                         '&#249;': 'ù',
                         '&#xF9;': 'ù',
                         '&#xf9;': 'ù',
                         '&uacute;': 'ú',
                         '&#250;': 'ú',
                         '&#xFA;': 'ú',
                         '&#xfa;': 'ú',
                         '&ucirc;': 'û',
                         '&#251;': 'û',
                         '&#xFB;': 'û',
                         '&#xfb;': 'û',
                         '&uuml;': 'ü',
                         '&#252;': 'ü',
                         '&#xFC;': 'ü',
                         '&#xfc;': 'ü',
                         '&yacute;': 'ý',
                         '&#253;': 'ý',
                         '&#xFD;': 'ý',
                         '&#xfd;': 'ý',
                         '&thorn;': 'þ',
                         '&#254;': 'þ',
                         '&#xFE;': 'þ',
                         '&#xfe;': 'þ',
                         '&yuml;': 'ÿ',
                         '&#255;': 'ÿ',
                         '&#xFF;': 'ÿ',
                         '&#xff;': 'ÿ',
                         '&middot;': '·',
                         '&#183;': '·',
                         '&#xB7;': '·',
                         '&#xb7;': '·',
                         '&laquo;': '«',
                         '&#171;': '«',
                         '&#xAB;': '«',
                         '&#xab;': '«',
                         '&raquo;': '»',
                         '&#187;': '»',
                         '&#xBB;': '»',
                         '&#xbb;': '»',
                         '&rsquo;': "'",
                         '&iexcl;': '¡',
                         '&#161;': '¡',
                         '&#xA1;': '¡',
                         '&#xa1;': '¡',
                         '&#x00A1;': '¡',
                         '&#x00a1;': '¡',
                         '&iquest;': '¿',
                         '&#191;': '¿',
                         '&#xBF;': '¿',
                         '&#xbf;': '¿',
                         '&#x00BF;': '¿',
                         '&#x00bf;': '¿',
                         '&#264;': 'Ĉ',
                         '&#265;': 'ĉ',
                         '&#284;': 'Ĝ',
                         '&#285;': 'ĝ',
                         '&#292;': 'Ĥ',
                         '&#293;': 'ĥ',
                         '&#308;': 'Ĵ',
                         '&#309;': 'ĵ',
                         '&#348;': 'Ŝ',
                         '&#349;': 'ŝ',
                         '&#364;': 'Ŭ',
                         '&#365;': 'ŭ',
                         '&#39;': "'",
                         "'": "'"})]},
 'html-alt': {'escape': ['[\\]\\[^@\\\\/${}]'],
              'space': ['[ \\n\\t\\r<>~]'],
              'caseless': True,
              'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                        {'begin': ['(?:\\{\\{)'], 'end': ['(?:\\}\\})'], 'eos': False, 'eoh': False, 'prio': 1},
                        {'begin': ['(?:<script)(?:\\ [^>]*)?>'], 'end': ['(?:</script)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                        {'begin': ['(?:<apertium\\-notrans)(?:\\ [^>]*)?>'], 'end': ['(?:</apertium\\-notrans>)'], 'eos': False, 'eoh': False, 'prio': 2},
                        {'begin': ['(?:<style)(?:\\ [^>]*)?>'], 'end': ['(?:</style)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                        {'begin': ['(?:<br)(?:\\ [^>]*)?>', '(?:<hr)(?:\\ [^>]*)?>', '(?:<p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:<li)(?:\\ [^>]*)?>', '(?:<ul)(?:\\ [^>]*)?>', '(?:<ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:<tr)(?:\\ [^>]*)?>', '(?:<td)(?:\\ [^>]*)?>', '(?:<th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:</br)(?:\\ [^>]*)?>', '(?:</hr)(?:\\ [^>]*)?>', '(?:</p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:</li)(?:\\ [^>]*)?>', '(?:</ul)(?:\\ [^>]*)?>', '(?:</ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:</tr)(?:\\ [^>]*)?>', '(?:</td)(?:\\ [^>]*)?>', '(?:</th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:<title)(?:\\ [^>]*)?>', '(?:<div)(?:\\ [^>]*)?>', '(?:<option)(?:\\ [^>]*)?>', '(?:<h)[1-6](?:\\ [^>]*)?>'],
                         'end': None,
                         'eos': True,
                         'eoh': False,
                         'prio': 3},
                        {'begin': ['(?:</div)(?:\\ [^>]*)?>', '(?:</option)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                        {'begin': ['(?:</title)(?:\\ [^>]*)?>', '(?:</h)[1-6](?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': True, 'prio': 3},
                        {'begin': ['<(?:(?:link))(?:\\ [^>]*)?>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                        {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                        {'begin': ['<(?:(?:img)|(?:input)|(?:area))(?:\\ [^><]+)*(?:\\ alt=)[\\"\']'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                        {'begin': ['[\\"\'][^><]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                        {'begin': ['<[a-zA-Z]+'], 'end': ['[^>]*>'], 'eos': False, 'eoh': False, 'prio': 4},
                        {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5}],
              'entities': []},
 'html-noent': {'escape': ['[\\]\\[^@\\\\/${}]'],
                'space': ['[ \\n\\t\\r<>~]'],
                'caseless': True,
                'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                          {'begin': ['(?:\\{\\{)'], 'end': ['(?:\\}\\})'], 'eos': False, 'eoh': False, 'prio': 1},
                          {'begin': ['(?:<script)(?:\\ [^>]*)?>'], 'end': ['(?:</script)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                          {'begin': ['(?:<apertium\\-notrans)(?:\\ [^>]*)?>'], 'end': ['(?:</apertium\\-notrans>)'], 'eos': False, 'eoh': False, 'prio': 2},
                          {'begin': ['(?:<style)(?:\\ [^>]*)?>'], 'end': ['(?:</style)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                          {'begin': ['(?:<br)(?:\\ [^>]*)?>', '(?:<hr)(?:\\ [^>]*)?>', '(?:<p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:<li)(?:\\ [^>]*)?>', '(?:<ul)(?:\\ [^>]*)?>', '(?:<ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:<tr)(?:\\ [^>]*)?>', '(?:<td)(?:\\ [^>]*)?>', '(?:<th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:</br)(?:\\ [^>]*)?>', '(?:</hr)(?:\\ [^>]*)?>', '(?:</p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:</li)(?:\\ [^>]*)?>', '(?:</ul)(?:\\ [^>]*)?>', '(?:</ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:</tr)(?:\\ [^>]*)?>', '(?:</td)(?:\\ [^>]*)?>', '(?:</th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:<title)(?:\\ [^>]*)?>', '(?:<div)(?:\\ [^>]*)?>', '(?:<option)(?:\\ [^>]*)?>', '(?:<h)[1-6](?:\\ [^>]*)?>'],
                           'end': None,
                           'eos': True,
                           'eoh': False,
                           'prio': 3},
                          {'begin': ['(?:</div)(?:\\ [^>]*)?>', '(?:</option)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                          {'begin': ['(?:</title)(?:\\ [^>]*)?>', '(?:</h)[1-6](?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': True, 'prio': 3},
                          {'begin': ['<(?:(?:img)|(?:link))(?:\\ [^>]*)?>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                          {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                          {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                          {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5}],
                'entities': []},
 'odt': {'escape': ['[\\]\\[^@\\\\/$]'],
         'space': ['[ \\n\\t\\r<>{}~]'],
         'caseless': True,
         'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ['(?:<math:)[a-zA-Z]+(?:\\ [^>]*)?>'], 'end': ['(?:</math:)[a-zA-Z]+(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                   {'begin': ['(?:<math)(?:(?:\\ xmlns=)[^>]*)?>'], 'end': ['(?:</math>)'], 'eos': False, 'eoh': False, 'prio': 2},
                   {'begin': ['(?:\\&lt;apertium\\-notrans)(?:\\ [^>]*)?(?:\\&gt;)'], 'end': ['(?:\\&lt;/apertium\\-notrans\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 2},
                   {'begin': ['(?:<text:)[hp](?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                   {'begin': ['(?:</text:)[hp](?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                   {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                   {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                   {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4}],
         'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'], {'&apos;': "'"})]},
 'rtf': {'escape': ['(?:\\\\|[\\]\\[<>@^$/{}])'],
         'space': ['[ \\n\\t\\r$*~]'],
         'caseless': True,
         'rules': [{'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\snext)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\keycode)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fcharset)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fnil)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\froman)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fswiss)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fmodern)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fscript)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fdecor)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\ftech)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fbidi)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\falt)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fontfile)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fn)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\sbasedon)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\additive)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\file)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\listname)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\leveltext)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\levelnumbers)"], 'end': [';'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\pict)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\sn)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\sv)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\{\\\\\\*\\\\blipuid\\ \\ )[^ \\n\\r]+\\}"],
                    'end': ['\\}'],
                    'eos': False,
                    'eoh': False,
                    'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\object)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\docvar)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\bkmkstart)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\bkmkend)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\rxe)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fldinst)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\fldrslt)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\pntxt)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ["\\{[ \\n\\r]*(?:\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*)*(?:\\\\colortbl)"], 'end': ['\\}'], 'eos': False, 'eoh': False, 'prio': 1},
                   {'begin': ['[a-f0-9]{20,}'], 'end': None, 'eos': True, 'eoh': False, 'prio': 1},
                   {'begin': ['(?:\\\\par)', '(?:\\\\row)', '(?:\\\\cell)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                   {'begin': ["\\{[ \\n\\r]*\\\\[^'][^ \\n\\r\\\\]*[ \\n\\r]*"], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ["\\\\[^r'][^ \\n\\r\\\\]*[ \\n\\r]*"], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\r[^q][^ \\n\\r\\\\]*[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\rq[^u][^ \\n\\r\\\\]*[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\rqu[^o][^ \\n\\r\\\\]*[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\rquo[^t][^ \\n\\r\\\\]*[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\rquot[^e][^ \\n\\r\\\\]*[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\\\rquote[^ \\n\\r\\\\]+[ \\n\\r]*'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                   {'begin': ['\\}'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                   {'begin': ['\\{'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4}],
         'entities': [(['(?:\\\\rquote\\ )'], {'\\rquote ': "'", "'": "'"}),
                      (["(?:\\\\')[0-9a-fA-F][0-9a-fA-F](?:\r\n|\r|\n)?"],
                       {"\\'c0": 'À',
                        "\\'c1": 'Á',
                        "\\'c2": 'Â',
                        "\\'c3": 'Ã',
                        "\\'c4": 'Ä',
                        "\\'c5": 'Å',
                        "\\'c6": 'Æ',
                        "\\'c7": 'Ç',
                        "\\'c8": 'È',
                        "\\'c9": 'É',
                        "\\'ca": 'Ê',
                        "\\'cb": 'Ë',
                        "\\'cc": 'Ì',
                        "\\'cd": 'Í',
                        "\\'ce": 'Î',
                        "\\'cf": 'Ï',
                        "\\'d0": 'Ð',
                        "\\'d1": 'Ñ',
                        "\\'d2": 'Ò',
                        "\\'d3": 'Ó',
                        "\\'d4": 'Ô',
                        "\\'d5": 'Õ',
                        "\\'d6": 'Ö',
                        "\\'d8": 'Ø',
                        "\\'d9": 'Ù',
                        "\\'da": 'Ú',
                        "\\'db": 'Û',
                        "\\'dc": 'Ü',
                        "\\'dd": 'Ý',
                        "\\'de": 'Þ',
                        "\\'df": 'ß',
                        "\\'e0": 'à',
                        "\\'e1": 'á',
                        "\\'e2": 'â',
                        "\\'e3": 'ã',
                        "\\'e4": 'ä',
                        "\\'e5": 'å',
                        "\\'e6": 'æ',
                        "\\'e7": 'ç',
                        "\\'e8": 'è',
                        "\\'e9": 'é',
                        "\\'ea": 'ê',
                        "\\'eb": 'ë',
                        "\\'ec": 'ì',
                        "\\'ed": 'í',
                        "\\'ee": 'î',
                        "\\'ef": 'ï',
                        "\\'f0": 'ð',
                        "\\'f1": 'ñ',
                        "\\'f2": 'ò',
                        "\\'f3": 'ó',
                        "\\'f4": 'ô',
                        "\\'f5": 'õ',
                        "\\'f6": 'ö',
                        "\\'f8": 'ø',
                        "\\'f9": 'ù',
                        "\\'fa": 'ú',
                        "\\'fb": 'û',
                        "\\'fc": 'ü',
                        "\\'fd": 'ý',
                        "\\'fe": 'þ',
                        "\\'ff": 'ÿ',
                        "\\'c0\r\n": 'À',
                        "\\'c1\r\n": 'Á',
                        "\\'c2\r\n": 'Â',
                        "\\'c3\r\n": 'Ã',
                        "\\'c4\r\n": 'Ä',
                        "\\'c5\r\n": 'Å',
                        "\\'c6\r\n": 'Æ',
                        "\\'c7\r\n": 'Ç',
                        "\\'c8\r\n": 'È',
                        "\\'c9\r\n": 'É',
                        "\\'ca\r\n": 'Ê',
                        "\\'cb\r\n": 'Ë',
                        "\\'cc\r\n": 'Ì',
                        "\\'cd\r\n": 'Í',
                        "\\'ce\r\n": 'Î',
                        "\\'cf\r\n": 'Ï',
                        "\\'d0\r\n": 'Ð',
                        "\\'d1\r\n": 'Ñ',
                        "\\'d2\r\n": 'Ò',
                        "\\'d3\r\n": 'Ó',
                        "\\'d4\r\n": 'Ô',
                        "\\'d5\r\n": 'Õ',
                        "\\'d6\r\n": 'Ö',
                        "\\'d8\r\n": 'Ø',
                        "\\'d9\r\n": 'Ù',
                        "\\'da\r\n": 'Ú',
                        "\\'db\r\n": 'Û',
                        "\\'dc\r\n": 'Ü',
                        "\\'dd\r\n": 'Ý',
                        "\\'de\r\n": 'Þ',
                        "\\'df\r\n": 'ß',
                        "\\'e0\r\n": 'à',
                        "\\'e1\r\n": 'á',
                        "\\'e2\r\n": 'â',
                        "\\'e3\r\n": 'ã',
                        "\\'e4\r\n": 'ä',
                        "\\'e5\r\n": 'å',
                        "\\'e6\r\n": 'æ',
                        "\\'e7\r\n": 'ç',
                        "\\'e8\r\n": 'è',
                        "\\'e9\r\n": 'é',
                        "\\'ea\r\n": 'ê',
                        "\\'eb\r\n": 'ë',
                        "\\'ec\r\n": 'ì',
                        "\\'ed\r\n": 'í',
                        "\\'ee\r\n": 'î',
                        "\\'ef\r\n": 'ï',
                        "\\'f0\r\n": 'ð',
                        "\\'f1\r\n": 'ñ',
                        "\\'f2\r\n": 'ò',
                        "\\'f3\r\n": 'ó',
                        "\\'f4\r\n": 'ô',
                        "\\'f5\r\n": 'õ',
                        "\\'f6\r\n": 'ö',
                        "\\'f8\r\n": 'ø',
                        "\\'f9\r\n": 'ù',
                        "\\'fa\r\n": 'ú',
                        "\\'fb\r\n": 'û',
                        "\\'fc\r\n": 'ü',
                        "\\'fd\r\n": 'ý',
                        "\\'fe\r\n": 'þ',
                        "\\'ff\r\n": 'ÿ',
                        "\\'c0\n": 'À',
                        "\\'c1\n": 'Á',
                        "\\'c2\n": 'Â',
                        "\\'c3\n": 'Ã',
                        "\\'c4\n": 'Ä',
                        "\\'c5\n": 'Å',
                        "\\'c6\n": 'Æ',
                        "\\'c7\n": 'Ç',
                        "\\'c8\n": 'È',
                        "\\'c9\n": 'É',
                        "\\'ca\n": 'Ê',
                        "\\'cb\n": 'Ë',
                        "\\'cc\n": 'Ì',
                        "\\'cd\n": 'Í',
                        "\\'ce\n": 'Î',
                        "\\'cf\n": 'Ï',
                        "\\'d0\n": 'Ð',
                        "\\'d1\n": 'Ñ',
                        "\\'d2\n": 'Ò',
                        "\\'d3\n": 'Ó',
                        "\\'d4\n": 'Ô',
                        "\\'d5\n": 'Õ',
                        "\\'d6\n": 'Ö',
                        "\\'d8\n": 'Ø',
                        "\\'d9\n": 'Ù',
                        "\\'da\n": 'Ú',
                        "\\'db\n": 'Û',
                        "\\'dc\n": 'Ü',
                        "\\'dd\n": 'Ý',
                        "\\'de\n": 'Þ',
                        "\\'df\n": 'ß',
                        "\\'e0\n": 'à',
                        "\\'e1\n": 'á',
                        "\\'e2\n": 'â',
                        "\\'e3\n": 'ã',
                        "\\'e4\n": 'ä',
                        "\\'e5\n": 'å',
                        "\\'e6\n": 'æ',
                        "\\'e7\n": 'ç',
                        "\\'e8\n": 'è',
                        "\\'e9\n": 'é',
                        "\\'ea\n": 'ê',
                        "\\'eb\n": 'ë',
                        "\\'ec\n": 'ì',
                        "\\'ed\n": 'í',
                        "\\'ee\n": 'î',
                        "\\'ef\n": 'ï',
                        "\\'f0\n": 'ð',
                        "\\'f1\n": 'ñ',
                        "\\'f2\n": 'ò',
                        "\\'f3\n": 'ó',
                        "\\'f4\n": 'ô',
                        "\\'f5\n": 'õ',
                        "\\'f6\n": 'ö',
                        "\\'f8\n": 'ø',
                        "\\'f9\n": 'ù',
                        "\\'fa\n": 'ú',
                        "\\'fb\n": 'û',
                        "\\'fc\n": 'ü',
                        "\\'fd\n": 'ý',
                        "\\'fe\n": 'þ',
                        "\\'ff\n": 'ÿ',
                        "\\'c0\r": 'À',
                        "\\'c1\r": 'Á',
                        "\\'c2\r": 'Â',
                        "\\'c3\r": 'Ã',
                        "\\'c4\r": 'Ä',
                        "\\'c5\r": 'Å',
                        "\\'c6\r": 'Æ',
                        "\\'c7\r": 'Ç',
                        "\\'c8\r": 'È',
                        "\\'c9\r": 'É',
                        "\\'ca\r": 'Ê',
                        "\\'cb\r": 'Ë',
                        "\\'cc\r": 'Ì',
                        "\\'cd\r": 'Í',
                        "\\'ce\r": 'Î',
                        "\\'cf\r": 'Ï',
                        "\\'d0\r": 'Ð',
                        "\\'d1\r": 'Ñ',
                        "\\'d2\r": 'Ò',
                        "\\'d3\r": 'Ó',
                        "\\'d4\r": 'Ô',
                        "\\'d5\r": 'Õ',
                        "\\'d6\r": 'Ö',
                        "\\'d8\r": 'Ø',
                        "\\'d9\r": 'Ù',
                        "\\'da\r": 'Ú',
                        "\\'db\r": 'Û',
                        "\\'dc\r": 'Ü',
                        "\\'dd\r": 'Ý',
                        "\\'de\r": 'Þ',
                        "\\'df\r": 'ß',
                        "\\'e0\r": 'à',
                        "\\'e1\r": 'á',
                        "\\'e2\r": 'â',
                        "\\'e3\r": 'ã',
                        "\\'e4\r": 'ä',
                        "\\'e5\r": 'å',
                        "\\'e6\r": 'æ',
                        "\\'e7\r": 'ç',
                        "\\'e8\r": 'è',
                        "\\'e9\r": 'é',
                        "\\'ea\r": 'ê',
                        "\\'eb\r": 'ë',
                        "\\'ec\r": 'ì',
                        "\\'ed\r": 'í',
                        "\\'ee\r": 'î',
                        "\\'ef\r": 'ï',
                        "\\'f0\r": 'ð',
                        "\\'f1\r": 'ñ',
                        "\\'f2\r": 'ò',
                        "\\'f3\r": 'ó',
                        "\\'f4\r": 'ô',
                        "\\'f5\r": 'õ',
                        "\\'f6\r": 'ö',
                        "\\'f8\r": 'ø',
                        "\\'f9\r": 'ù',
                        "\\'fa\r": 'ú',
                        "\\'fb\r": 'û',
                        "\\'fc\r": 'ü',
                        "\\'fd\r": 'ý',
                        "\\'fe\r": 'þ',
                        "\\'ff\r": 'ÿ',
                        '\\u237': 'í',
                        '\\u243': 'ó'})]},
 'wxml': {'escape': ['[\\]\\[^@\\\\/${}]'],
          'space': ['[ \\n\\t\\r<>~]'],
          'caseless': True,
          'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                    {'begin': ['(?:<Properties)(?:\\ [^>]*)?>'], 'end': ['(?:</Properties)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<pkg:binaryData)(?:\\ [^>]*)?>'], 'end': ['(?:</pkg:binaryData)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:<w:instrText)(?:\\ [^>]*)?>'], 'end': ['(?:</w:instrText)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:\\&lt;apertium\\-notrans)(?:\\ [^>]*)?(?:\\&gt;)'], 'end': ['(?:\\&lt;/apertium\\-notrans\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<w:drawing)(?:\\ [^>]*)?>'], 'end': ['(?:</w:drawing)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:<w:p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:</w:p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                    {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                    {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5}],
          'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'], {'&apos;': "'"})]},
 'xlsx': {'escape': ['[\\]\\[^@\\\\/${}]'],
          'space': ['[ \\n\\t\\r<>~]'],
          'caseless': True,
          'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                    {'begin': ['(?:<f)(?:\\ [^>]*)?>'], 'end': ['(?:</f)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<si)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</si)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:\\&lt;apertium\\-notrans)(?:\\ [^>]*)?(?:\\&gt;)'], 'end': ['(?:\\&lt;/apertium\\-notrans\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4}],
          'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'], {'&apos;': "'"})]},
 'pptx': {'escape': ['[\\]\\[^@\\\\/$]'],
          'space': ['[ \\n\\t\\r<>{}~]'],
          'caseless': True,
          'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                    {'begin': ['(?:<pkg:binaryData)(?:\\ [^>]*)?>'], 'end': ['(?:</pkg:binaryData)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<p:timing)(?:\\ [^>]*)?>'], 'end': ['(?:</p:timing)(?:\\ [^>]*)?>'], 'eos': True, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:<a:p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:</a:p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                    {'begin': ['(?:\\&lt;apertium\\-notrans)(?:\\ [^>]*)?(?:\\&gt;)'], 'end': ['(?:\\&lt;/apertium\\-notrans\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 2},
                    {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                    {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                    {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4}],
          'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'], {'&apos;': "'"})]},
 'mediawiki': {'escape': ['[\\]\\[^@\\\\/$]'],
               'space': ['[ \\n\\t\\r<>{}~]'],
               'caseless': True,
               'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ['(?:\\&lt;!\\-\\-)'], 'end': ['(?:\\-\\-\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ['(?:<script)(?:\\ [^>]*)?>'], 'end': ['(?:</script)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<apertium\\-notrans)(?:\\ [^>]*)?>'], 'end': ['(?:</apertium\\-notrans>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<siteinfo>)'], 'end': ['(?:</siteinfo>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<comment>)'], 'end': ['(?:</comment>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<id>)'], 'end': ['(?:</id>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<contributor>)'], 'end': ['(?:</contributor>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<timestamp>)'], 'end': ['(?:</timestamp>)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:\\{\\{)'], 'end': ['(?:\\}\\})'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:\\&lt;math\\&gt;)'], 'end': ['(?:\\&lt;/math\\&gt;)'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<style)(?:\\ [^>]*)?>'], 'end': ['(?:</style)(?:\\ [^>]*)?>'], 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['(?:<br)(?:\\ [^>]*)?>', '(?:<hr)(?:\\ [^>]*)?>', '(?:<p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:<li)(?:\\ [^>]*)?>', '(?:<ul)(?:\\ [^>]*)?>', '(?:<ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:<tr)(?:\\ [^>]*)?>', '(?:<td)(?:\\ [^>]*)?>', '(?:<th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:</br)(?:\\ [^>]*)?>', '(?:</hr)(?:\\ [^>]*)?>', '(?:</p)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:</li)(?:\\ [^>]*)?>', '(?:</ul)(?:\\ [^>]*)?>', '(?:</ol)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:</tr)(?:\\ [^>]*)?>', '(?:</td)(?:\\ [^>]*)?>', '(?:</th)(?:\\ [^>]*)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['\\['], 'end': None, 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ['\\]'], 'end': None, 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ["'(?:[']+)"], 'end': None, 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ['^(?:[\\*=:;#]+)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 1},
                         {'begin': ['=(?:[=]+)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 1},
                         {'begin': ['(?:\\[\\[)(?:[a-z][a-z]|[a-z][a-z][a-z]|(?:image)|(?:file)):(?:[^\\]]*)(?:\\]\\])'], 'end': None, 'eos': False, 'eoh': False, 'prio': 3},
                         {'begin': ['(?:<title)(?:\\ [^>]*)?>', '(?:<div)(?:\\ [^>]*)?>', '(?:<option)(?:\\ [^>]*)?>', '(?:<h)[1-6](?:\\ [^>]*)?>'],
                          'end': None,
                          'eos': True,
                          'eoh': False,
                          'prio': 3},
                         {'begin': ['(?:</title)(?:\\ [^>]*)?>', '(?:</div)(?:\\ [^>]*)?>', '(?:</option)(?:\\ [^>]*)?>', '(?:</h)[1-6](?:\\ [^>]*)?>'],
                          'end': None,
                          'eos': True,
                          'eoh': False,
                          'prio': 3},
                         {'begin': ['<(?:(?:img)|(?:link))(?:\\ [^>]*)?>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 4},
                         {'begin': ['(?:(?:<!)|(?:<\\?))[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                         {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                         {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                         {'begin': ['(?:\\&lt;)[a-zA-Z][^&]*(?:\\&gt;)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                         {'begin': ['(?:\\&lt;/)[a-zA-Z][^&]*(?:\\&gt;)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5}],
               'entities': []},
 'latex': {'escape': ['[\\]\\[^@\\\\/${}]'],
           'space': ['[ \\n\\t\\r<>~]'],
           'caseless': True,
           'rules': [{'begin': ['(?:<!\\-\\-)'], 'end': ['(?:\\-\\->)'], 'eos': False, 'eoh': False, 'prio': 1},
                     {'begin': ['(?:<COMMENT>)'], 'end': ['(?:</COMMENT>)'], 'eos': False, 'eoh': False, 'prio': 1},
                     {'begin': ['(?:<VERB>)'], 'end': ['(?:</VERB>)'], 'eos': False, 'eoh': False, 'prio': 1},
                     {'begin': ['(?:<cite)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': ['(?:</CONTENTS>)'], 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<ref)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': ['(?:</CONTENTS>)'], 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<part)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<part)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<chapter)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<chapter)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<section)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<section)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<title)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<title)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<mline)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<thanks)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<paragraph)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<subsubsubsubsubsection)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<frametitle)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<frametitle)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<block>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<caption)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<footnote)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<framebox)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<parbox)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)[^\\<]+(?:</CONTENTS>)[ \\t\\n\\r]*(?:<CONTENTS>)'],
                      'end': None,
                      'eos': True,
                      'eoh': False,
                      'prio': 2},
                     {'begin': ['(?:<item)(?:_STAR)?(?:/><PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<textit)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:</CONTENTS\\-noeos>)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<emph)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<textbf)(?:_STAR)?(?:/>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': False, 'eoh': False, 'prio': 2},
                     {'begin': ['(?:<CONTENTS>)[ \\t\\n\\r]*(?:<sf/>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<CONTENTS>)[ \\t\\n\\r]*(?:<bf/>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<CONTENTS>)[ \\t\\n\\r]*(?:<em/>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<CONTENTS>)[ \\t\\n\\r]*(?:<sc/>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<CONTENTS>)'], 'end': ['(?:</CONTENTS>)'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:</CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<PARAM>)'], 'end': ['(?:</PARAM>)'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:</PARAM>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<MATH_DOLLAR>)'], 'end': ['(?:</MATH_DOLLAR>)'], 'eos': False, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<MATH_DOLLARS>)'], 'end': ['(?:</MATH_DOLLARS>)'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<equation)(?:_STAR)?>'], 'end': ['(?:</equation)(?:_STAR)?>'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<thebibliography)(?:_STAR)?>'], 'end': ['(?:</thebibliography)(?:_STAR)?>'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<eqnarray)(?:_STAR)?>'], 'end': ['(?:</eqnarray)(?:_STAR)?>'], 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<itemize)(?:_STAR)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:</itemize)(?:_STAR)?>'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['(?:<item/>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 4},
                     {'begin': ['<[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                     {'begin': ['(?:</)[a-zA-Z][^>]*>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 5},
                     {'begin': ['(?:</PARAM>)[ \\t\\n\\r]*(?:<CONTENTS>)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 6}],
           'entities': [(['\\&(?:[a-zA-Z]+|(?:\\#x)[0-9a-fA-F]{1,4}|\\#[0-9]{1,8});'], {'&apos;': "'"})]},
 'xpresstag': {'escape': ['[\\]\\[^@\\\\/${}]'],
               'space': ['[ \\n\\t\\r*<>~]'],
               'caseless': True,
               'rules': [{'begin': ['<[^->]+(?:\\->)'], 'end': None, 'eos': True, 'eoh': False, 'prio': 1},
                         {'begin': ['<[^>]+>'], 'end': None, 'eos': False, 'eoh': False, 'prio': 2},
                         {'begin': ['@[^<:]+:'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['@[^<=]+='], 'end': None, 'eos': True, 'eoh': False, 'prio': 3},
                         {'begin': ['@[^<=]+(?:=\\[)[^\\]]+\\]'], 'end': None, 'eos': True, 'eoh': False, 'prio': 3}],
               'entities': []}}
