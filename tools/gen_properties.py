#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so wording stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/sym/'
T='The inline tests compare a handful of literal strings with literal module strings; '
p('C01','Code 39 barcodes are the standard Code 39 pattern of their data',
 'For every string the Code39 constructors accept, the encoded modules are start "*", a narrow gap, the standard 12-module pattern of each data character followed by a narrow gap, (with_checksum only) the mod-43 check character and a gap, and stop "*". The check character is the one whose Code 39 value is the sum of the data values modulo 43.',
 ['inputs'],'every string of 1..=256 characters over the 43-character alphabet, with and without check character',
 T+'42 of the 43^n contents and most table entries/check values are never exercised in combination.',
 [S+'code39.rs',S+'helpers.rs'],[('Code39::encode, payload, checksum_char','src/sym/code39.rs'),('CHARS table','src/sym/code39.rs')],['Code39::new/with_checksum(..).encode()'])
p('C02','Code 93 barcodes are the standard Code 93 pattern of their data',
 'For every string Code93::new accepts, the encoded modules are the start pattern, the standard 9-module pattern of every data character, check characters C (weights 1..20 from the right) and K (weights 1..15 from the right, over data and C), both modulo 47, the stop pattern and the termination bar.',
 ['inputs'],'every string of 1..=256 characters over the accepted alphabet',
 T+'weights wrap only beyond 15/20 characters and the two check characters interact; tests use short strings.',
 [S+'code93.rs',S+'helpers.rs'],[('Code93::encode, checksum_char','src/sym/code93.rs'),('CHARS table','src/sym/code93.rs')],['Code93::new(..).encode()'])
p('C03','Code 11 barcodes are the standard Code 11 (USD-8) pattern of their data',
 'For every string Code11::new accepts, the encoded modules are guard, every data character, the C check character (weights 1..10 from the right, modulo 11), for data of more than 10 characters also the K check character (weights 1..9 from the right over data and C, modulo 11), and guard, all separated by one narrow space.',
 ['inputs'],'every string of 1..=256 characters over 0-9 and -',
 T+'the K digit appears only above 10 characters and the weights wrap at 9 and 10.',
 [S+'code11.rs',S+'helpers.rs'],[('Code11::encode, payload, checksum_char','src/sym/code11.rs')],['Code11::new(..).encode()','USD8 alias'])
p('C04','Code 128 barcodes are the standard Code 128 symbol for their data',
 'For every string Code128::new accepts, the encoded modules are the standard 11-module patterns of the start code of the first character set, then the code of every character (or digit pair in set C), set switch and function code in input order, then the mod-103 check symbol weighted by position, the stop pattern and the 2-module termination bar. No input character is dropped, reordered or merged with another.',
 ['inputs'],'every string over the documented character set: all strings of up to a few characters over all sets, and long strings per character set',
 T+'there are three sets, 106 codes and a pending-digit state; tests exercise a dozen strings.',
 [S+'code128.rs',S+'helpers.rs'],[('Code128::parse, checksum_value, encode','src/sym/code128.rs'),('CHARS table','src/sym/code128.rs')],['Code128::new(..).encode()'],
 [('Code128.0','sequence of code values incl. start code','src/sym/code128.rs'),('carry','pending odd digit in set C','src/sym/code128.rs')])
p('C05','Codabar barcodes are the standard Codabar pattern of their data',
 'For every string Codabar::new accepts, the encoded modules are the standard Codabar pattern of each character in order with one narrow space between consecutive characters and none at the ends.',
 ['inputs'],'every string of 1..=256 characters over the 20 Codabar characters',
 T+'several characters (for example "+") appear in no test.',
 [S+'codabar.rs'],[('Codabar::encode, Unit::lookup, Unit::from_char','src/sym/codabar.rs')],['Codabar::new(..).encode()'])
p('C06','EAN-13 barcodes (and Bookland, JAN) are the standard EAN-13 symbol',
 'For every 12-digit number, and every 13-digit number with a correct check digit, the encoded 95 modules are the standard EAN-13 symbol of the number with its mod-10 check digit: guards, the six left digits in the A/B parity selected by the first digit, and right digits in set C.',
 ['inputs'],'all 10^12 twelve-digit numbers in both forms',
 T+'10^12 inputs; only a few leading digits (parities) are tested.',
 [S+'ean13.rs',S+'helpers.rs'],[('EAN13::encode, parity, checksum','src/sym/ean13.rs'),('modulo_10_checksum','src/sym/helpers.rs')],['EAN13::new(..).encode()'])
p('C07','EAN-8 barcodes are the standard EAN-8 symbol',
 'For every 7-digit number, and every 8-digit number with a correct check digit, the encoded 67 modules are the standard EAN-8 symbol of the number with its mod-10 check digit.',
 ['inputs'],'all 10^7 seven-digit numbers in both forms',T+'10^7 inputs.',
 [S+'ean8.rs',S+'helpers.rs'],[('EAN8::encode','src/sym/ean8.rs')],['EAN8::new(..).encode()'])
p('C08','UPC-A barcodes are the standard UPC-A symbol',
 'For every 11-digit number, and every 12-digit number with a correct check digit, the encoded 95 modules are the standard UPC-A symbol of the number with its mod-10 check digit.',
 ['inputs'],'all 10^11 eleven-digit numbers in both forms',T+'10^11 inputs.',
 [S+'upca.rs',S+'helpers.rs'],[('UPCA::encode','src/sym/upca.rs')],['UPCA::new(..).encode()'])
p('C09','EAN-2 and EAN-5 supplementals are the standard add-on symbols',
 'For every 2-digit and every 5-digit string the encoded modules are the standard EAN-2 / EAN-5 add-on: the 1011 guard, digits in the A/B parity selected by the number modulo 4 (EAN-2) or by the 3/9-weighted check digit (EAN-5), separated by 01; the constructor returns the variant that matches the length.',
 ['inputs'],'all 100 and all 100000 digit strings',T+'three strings are tested.',
 [S+'ean_supp.rs',S+'ean13.rs'],[('EANSUPP::encode, parity','src/sym/ean_supp.rs')],['EANSUPP::new(..).encode()'])
p('C10','Interleaved 2-of-5 barcodes interleave every digit pair as specified',
 'For every digit string TF::interleaved accepts, the encoded modules are start, for each digit pair five bars from the first and five spaces from the second digit with the standard narrow/wide pattern (wide = 3), and stop. Odd-length data is completed with the mod-10 (weight 3 first) check digit and even-length data is encoded unchanged.',
 ['inputs'],'every digit string of 1..=256 digits',T+'strings of 10-13 digits only, so large weighted sums are never reached.',
 [S+'tf.rs',S+'helpers.rs'],[('TF::interleaved, itf_payload, interleave','src/sym/tf.rs'),('modulo_10_checksum','src/sym/helpers.rs')],['TF::interleaved(..).encode()'])
p('C11','Standard 2-of-5 barcodes encode every digit as specified',
 'For every digit string TF::standard accepts, the encoded modules are start, for each digit its five bars (wide = 3, narrow = 1) each followed by a narrow space, and stop.',
 ['inputs'],'every digit string of 1..=256 digits',T+'two strings are tested.',
 [S+'tf.rs'],[('TF::standard, stf_payload','src/sym/tf.rs')],['TF::standard(..).encode()'])
p('C12','A supplied check digit is accepted exactly when it is correct',
 'For EAN-13, EAN-8 and UPC-A, a number given with its check digit is accepted if and only if the digit is the mod-10 check digit of the rest, and is otherwise rejected with the checksum error; the accepted long form encodes to the same modules as the short form.',
 ['inputs'],'all 13-, 8- and 12-digit numbers',T+'a few correct and one or two wrong digits are tried.',
 [S+'ean13.rs',S+'ean8.rs',S+'upca.rs',S+'helpers.rs'],[('EAN13::new / EAN8::new / UPCA::new','src/sym/'),('modulo_10_checksum','src/sym/helpers.rs')],['*::new(..)','Error::Checksum'])
p('C13','Constructors accept exactly the documented strings, with the right error',
 'Every constructor accepts a string if and only if its length is within the documented bounds of the symbology and all its characters are in the symbology alphabet (plus the check-digit and Code 128 set rules); a length violation is reported as the length error, otherwise an illegal character (ASCII or not) as the character error.',
 ['inputs'],'every Unicode string of any length up to the platform maximum',T+'one bad character and one or two bad lengths are tried per symbology; non-ASCII, boundary and huge lengths are not.',
 ['src/sym.rs',S+'*.rs'],[('Parse::parse','src/sym.rs'),('valid_len / valid_chars','src/sym/*.rs'),('Code128::parse','src/sym/code128.rs')],['all ::new / with_checksum / interleaved / standard results'])
p('C14','No accepted or rejected input can make constructors or encoders panic',
 'No constructor panics (arithmetic overflow, index, slice, unwrap, or explicit panic) on any string, and encode() never panics on any value a constructor returned.',
 ['inputs'],'every Unicode string, every constructed barcode',T+'a panic needs a particular length or weighted sum (a u8 accumulator overflows only for long runs of large digits).',
 ['src/sym.rs',S+'*.rs'],[('all constructors and encode()','src/sym/*.rs')],['absence of panics, overflow checks on'])
p('C15','Encoded output is a well formed module sequence of determined length',
 'Every successful encode() returns only modules 0 and 1, begins with a bar, ends with a bar (for standard 2-of-5: with the narrow space that closes the stop pattern), and has a length determined by the symbology and the number (and, for variable-width symbologies, kind) of encoded characters.',
 ['inputs'],'every constructed barcode of every symbology',T+'the tests compare a few whole outputs.',
 [S+'*.rs'],[('encode()','src/sym/*.rs')],['encode() result'])
p('C16','Symbologies agree with each other where the standards coincide',
 'UPC-A of a number equals EAN-13 of the number with a leading 0; Code 39 with a check character equals plain Code 39 of the data with that character appended; interleaved 2-of-5 of odd-length data equals that of the data with its check digit appended; the JAN, Bookland and USD8 names behave as EAN-13 and Code 11.',
 ['inputs'],'every accepted input of both sides',T+'no test relates two symbologies.',
 [S+'upca.rs',S+'ean13.rs',S+'code39.rs',S+'tf.rs',S+'code11.rs'],[('encode()','src/sym/*.rs')],['pairs of encode() results'])
p('C17','ASCII output draws every module xdim wide on height identical rows',
 'For every module sequence, height and xdim, ASCII::generate returns height identical lines separated by newlines (none trailing), each containing xdim "#" per bar module and xdim spaces per space module in order; the defaults are height 10, xdim 1.',
 ['inputs'],'all module sequences, heights and xdims',T+'outputs for a few fixed barcodes and sizes.',
 ['src/generators/ascii.rs'],[('ASCII::generate','src/generators/ascii.rs')],['ASCII::generate result'])
p('C18','JSON output is valid JSON that lists the settings and every module',
 'For every module sequence, height and xdim, JSON::generate returns exactly one JSON object with keys height, xdim and encoding, whose values are the configured numbers and the array of the modules in order (including the empty sequence); the defaults are height 10, xdim 1.',
 ['inputs'],'all module sequences, heights and xdims',T+'a few fixed barcodes.',
 ['src/generators/json.rs'],[('JSON::generate','src/generators/json.rs')],['JSON::generate result'])
p('C19','SVG output is a well formed document with one rectangle per bar',
 'For every module sequence and settings, SVG::generate returns one svg element whose viewBox is modules*xdim by height, containing a background rectangle covering the view box followed by one rectangle per bar module, in order, at x = index*xdim with width xdim and the full height, and nothing for space modules.',
 ['inputs'],'all module sequences, heights and xdims whose product fits',T+'only output lengths or fixed strings are compared.',
 ['src/generators/svg.rs'],[('SVG::generate, rect','src/generators/svg.rs')],['SVG::generate result'])
p('C20','SVG colours, opacity, namespace and builder settings are rendered faithfully',
 'Bars use the foreground and the background rectangle uses the background colour, as 6 lower-case hex digits of R, G, B, with fill-opacity alpha/255 to two decimals exactly when that is not 1.00; the xmlns attribute appears exactly when set, as a well formed attribute with that value; each builder setting changes only its own field from the documented defaults.',
 ['inputs'],'all 2^32 colours for each role, all namespace strings, all builder chains',T+'a few colours and one namespace.',
 ['src/generators/svg.rs'],[('Color::to_hex, to_opacity, SVG builder methods','src/generators/svg.rs')],['SVG::generate result'])
p('C21','Image rasters draw every module xdim wide, full height, in the right colour',
 'For every module sequence and settings, generate_buffer of every image variant returns (for rotation zero) a raster of modules*xdim by height in which pixel (x, y) is the foreground colour if module x/xdim is a bar and the background colour otherwise, alpha included.',
 ['inputs'],'all module sequences, sizes and colours',T+'tests check dimensions or the byte length of compressed output.',
 ['src/generators/image.rs'],[('Image::generate_buffer, place_pixels','src/generators/image.rs')],['generate_buffer pixels'])
p('C22','Image rotation turns the unrotated raster by exactly the requested angle',
 'For every module sequence and settings, the raster produced with rotation 90, 180 or 270 is the rotation-zero raster turned clockwise by that angle: dimensions swap for 90 and 270 and each pixel moves to its rotated position.',
 ['inputs'],'all module sequences, sizes, colours and rotations',T+'one rotated image, by compressed length.',
 ['src/generators/image.rs'],[('place_pixels','src/generators/image.rs')],['generate_buffer pixels'])
p('C23','Image::generate hands the same raster to the codec of its own format',
 'For every settings value, generate on the GIF, PNG and WEBP variants encodes, in exactly that format, the same raster that generate_buffer returns and returns the bytes written; an encoder failure is reported as the generate error rather than lost, and the ImageBuffer variant always reports the generate error; the constructors give their own variant with the documented defaults.',
 ['inputs','fault_sequences'],'all variants, settings, module sequences and encoder outcomes',T+'encoder failure and the ImageBuffer arm are never exercised; outputs are checked by length only.',
 ['src/generators/image.rs'],[('Image::generate and constructors','src/generators/image.rs')],['generate result, arguments of the codec call'])
p('C24','All generators show the same bars for the same module sequence',
 'For every sequence of 0/1 modules and common xdim and height, the ASCII, JSON, SVG and image generators represent the same set of bar positions: module i is a bar in one exactly when it is in all others.',
 ['inputs'],'all module sequences, sizes',T+'each generator is tested alone.',
 ['src/generators/*.rs'],[('generate functions','src/generators/*.rs')],['generate results'])
p('C25','Encoding and generating are pure functions of their input',
 'No public operation of the library performs I/O, spawns threads, reads the clock, environment or randomness, keeps global or interior mutable state, or executes unsafe code of its own; results depend only on the arguments, so concurrent and repeated use gives equal results.',
 ['programs','schedules','histories'],'every function reachable from the public API; every interleaving of calls',T+'tests run each call once and cannot show the absence of an effect.',
 ['src/**/*.rs'],[('whole call graph','src/')],['call graph, statics, types'])
p('C26','Barcode, generator and error types can be shared and sent between threads',
 'All public barcode, generator, colour and error types are Send, Sync and Unpin, errors are Copy and comparable, generators are cloneable, and encode() and generate() need only shared access.',
 ['programs','schedules'],'every program that shares a barcode or generator between threads',T+'no test uses threads; auto traits can be lost silently by a private field change.',
 ['src/**/*.rs'],[('public types','src/')],['type checker'])
p('C27','Every feature combination builds and offers exactly its documented modules',
 'Each combination of the features ascii, json, svg, image and std compiles without errors; without std the crate is no_std and names nothing from std; a generator module exists exactly when its feature (for images: image and std) is enabled; and the symbologies are the same in all of them.',
 ['configurations'],'all 32 feature combinations',T+'the tests build one or two combinations.',
 ['Cargo.toml','src/lib.rs','src/generators.rs'],[('cfg attributes','src/')],['compiler over the feature lattice'])
p('C28','Barcode values can only be obtained through validating constructors',
 'Outside code can neither construct nor modify the data of a barcode value except through the constructors that validate it, so a barcode value always holds valid data.',
 ['programs'],'every program using the public API',T+'tests live inside the crate and see private fields.',
 [S+'*.rs'],[('private fields of the barcode types','src/sym/*.rs')],['field visibility, public functions returning or mutating barcode values'])
p('C29','Generators never panic on a module sequence and sizes that fit',
 'For every sequence of 0/1 modules (including the empty one) and every height and xdim (including 0) for which the picture size fits the width type, no generator panics, and the text generators always succeed.',
 ['inputs'],'all module sequences, heights, xdims (including zero)',T+'zero sizes and empty sequences are never tried.',
 ['src/generators/*.rs'],[('generate functions','src/generators/*.rs')],['absence of panics'])
p('C30','Every error value has its own message and is a standard error',
 'Each error kind displays as its own fixed message, distinct from the others, and with std the error type implements the standard error trait.',
 ['inputs'],'all error kinds',T+'no test formats an error.',
 ['src/error.rs'],[('Display for Error','src/error.rs')],['Display output'])
p('C31','Generated image files decode to the raster that was encoded',
 'The bytes returned for PNG, GIF and WEBP decode with a conforming decoder to the raster that was drawn (for GIF up to its palette and 1-bit alpha).',
 ['inputs'],'all rasters',T+'only byte lengths are compared.',
 ['src/generators/image.rs'],[('image crate codecs','dependency')],['output bytes'])
p('C32','Rendered barcodes scan back to the encoded data with real readers',
 'A conforming optical reader that scans a rendered barcode with a sufficient quiet zone recovers exactly the data that was encoded.',
 ['inputs'],'all accepted data, all renderers',T+'no test scans.',
 ['src/sym/*.rs','src/generators/*.rs'],[('encode + generate','src/')],['scanner'])
p('C33','Different data never give the same barcode',
 'Within a symbology and constructor, two different accepted strings never encode to the same modules, except that a number written with and without its (correct) check digit is the same number: EAN-13, EAN-8, UPC-A, and interleaved 2-of-5 of odd length.',
 ['inputs'],'every pair of accepted strings of a symbology',T+'collisions concern pairs of inputs, of which the tests compare none.',
 [S+'*.rs'],[('constructors and encode()','src/sym/*.rs')],['constructor(..).encode() of two strings'])
p('C34','Check digits catch every single wrong digit',
 'For EAN-13, EAN-8 and UPC-A, if a full number with check digit is accepted, then every number that differs from it in exactly one digit is rejected with the checksum error, and so is every number in which two neighbouring digits are exchanged, unless they are equal or differ by five.',
 ['inputs'],'every accepted full number, every place, every other digit',T+'a few wrong check digits are tried, in the last place.',
 [S+'ean13.rs',S+'ean8.rs',S+'upca.rs',S+'helpers.rs'],[('check-digit comparison in the constructors','src/sym/{ean13,ean8,upca}.rs'),('modulo_10_checksum','src/sym/helpers.rs')],['EAN13::new, EAN8::new, UPCA::new'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
