CLAIMS={
 'C07':dict(note='addReference, delReference, unlink and every Set/Add/Del method taking one entity pointer, for every entity class, are proved against contracts over the whole parent and child lists for all list contents and lengths; destructors, 180/504/508 unlink and multi-step histories only by the bounded replay. Trusts the VC generator, z3, clang and the models of std::list/vector.'),
  'C09':dict(note='every public method, constructor and destructor of every API handle class (683 tasks) is proved against the handle invariant for all object states; flag registration and the destructors of model, entity, segment and outline are proved to clear every registered flag. 4 methods with array loops or nested fetches are covered only by the bounded replay (histories of handles and deletions on the real library). Trusts the VC generator, z3, clang and the models of std::list/vector.'),
  'C10':dict(note='all constructors and operators of point, matrix and transform are proved equal to their definitions as polynomial identities over the reals, in the plain and the operand-is-target forms, with frame conditions; the composition law is a lemma over those contracts. Doubles are treated as mathematical reals; rounding is covered only by the bounded replay.'),
  'C12':dict(note='GetStartPoint/GetEndPoint of arcs, conics, lines and composite curves, the overall transform of a transformation entity (against its own contract, induction over the chain) and the API accessors are proved over the reals. Cyclic transform chains (non-termination) and rounding are outside; bounded replay compares with an independent evaluation.'),
 'C11':dict(note='rescale of every entity class is proved to multiply exactly the listed length parameters once, for all values, list and control point array lengths (loops by inductive closed forms), with a frame condition for everything else; ConvertUnits and ChangeModelScale are proved to rescale every entity of the model exactly once by the ratio. Object invariant of the NURBS arrays (length = points times stride) is assumed; doubles are treated as reals.'),
 'C13':dict(note='every setter of every entity class (form, use, hierarchy, dependency, visibility, line weight, level, line font, colour, label, subscript, view, transform, label association) is proved against a two-outcome contract over the whole object, including the references held by the entities involved; the getters of the same attributes and the setters of the API handle are proved to report and to pass on exactly these values. IGES::AddEntity and addReference are used through their contracts (C08, C07).'),
 'C08':dict(note='NewEntity for every supported type and for all other types (class, type, parent, empty reference lists, position in the list), AddEntity, DelEntity, UnlinkEntity, Clear, ~IGES, the model operations of the API handle and the entity creation of every handle class are proved for all list contents; every entity destructor but that of type 508 is proved not to touch any model. Cull, ~508 and multi-step histories are covered by the bounded replay only. One model at a time: an entity listed in two models at once is outside the property.'),
 'C01':dict(note='FormatDEInt, DEItemToInt, DEItemToStr and their round trip are proved for every int, every field number and every record text, including bounds of the local buffer. strtol and ostream integer formatting are assumed contracts of the C library.'),
 'C02':dict(note='AddSecItem, AddPDItem, AddSecHStr and AddPDHStr are proved against one record-layout contract (81-character records, data columns, letter, sequence and directory numbers, pending text) for every item, string length, pending length and sequence number; the string writers through a declared inductive loop invariant.'),
 'C03':dict(note='GetHConst and ParseHString are proved inverse for every text of every length, content and position (strtol on a decimal prefix is an assumed library contract); the record writers of strings are proved as in C02.'),
 'C04':dict(note='ParseInt, ParseReal, ParseHString and ParseLString are proved in bounds, with exact position, flag and default behaviour, for every input text shorter than 2^31 characters, start position and delimiter pair; strtol/strtod are assumed contracts.'),
  'C05':dict(note='IGES_ENTITY::writeDE, readDE, their round trip and associate (resolution of the seven pointer attributes) are proved over every attribute value, every field content and every entity list; the readDE override of each of the 24 classes is proved to keep every applicable field and to accept exactly the forms of the type. Contracts used at calls: FormatDEInt, DEItemToInt, DEItemToStr (C01), addReference (C07); ReadIGESRecord is used through the contract proved in C17; the file stream is assumed.'),
 'C06':dict(note='format of 23 of the 24 types and readPD of 22 of the 24 are proved, for every attribute value, list and array length, against the parameter order of the standard: the k-th item written is the k-th parameter with the right delimiter, the k-th parameter read goes to the same attribute, valid entities and records are accepted; readExtraParams, readComments and CheckNormal are proved too. Item emission and parsing are used through the contracts proved for C02, C03 and C04. format and readPD of type 508, readPD of type 180, formatExtraParams, formatComments and the decimal text of reals (FormatPDREal) are covered by the bounded replay only (independent tokeniser, all 24 types).'),
  'C14':dict(note='checkDate (every text of 13 or 15 characters and all other lengths), readGlobals (26 parameters, delimiters, ranges, defaults, normalisation to millimetres), writeGlobals (every item, generated dates included), ConvertUnits, GetUnitName and the initialiser of the table of unit names are proved for all inputs. Contracts used at calls: ParseInt, ParseReal, ParseHString (C04), AddSecItem, AddSecHStr (C02), rescale (C11). ReadIGESRecord (C17). Assumed: strtol on digits, gmtime_r yields a calendar date; the decimal text of reals is covered by the bounded replay only. Doubles are treated as reals.'),
 'C15':dict(note='SetPath, GetFullPath, GetFileName, GetBaseName, GetExtension, SetExtension and Append are proved for every path text, every argument and every consistent set of remembered parts, against contracts over the position of the last separator and the last dot; each preserves the consistency of what is remembered, so the contracts hold over all histories. A lemma proves that the parts after a change of extension are the old directory and base name and the new extension. The loop which replaces separators carries a declared invariant (termination is covered by the replay only). Linux separators; arguments do not point into the object itself. The std::string operations are modelled; texts contain no NUL byte.'),
 'C16':dict(note='GetIDFString is proved for every line and every start position: bounds of every character access, progress, and the exact token, against a ghost statement of where the token starts and ends. CompareToken, ParseOwner, ParseIDFLayer and the functions which give the text of a value are proved for every text and every value; IDF_DRILL_DATA::read is proved for every sequence of tokens of a record in both versions and every unit against the contract of GetIDFString (each field from its own token, keywords, unit conversion, and refusal of nothing but faulty records), IDF_DRILL_DATA::write for every value. Component placements, notes, outline sections and whole boards (read, written, read again, and with one keyword replaced) are replayed against the real code only (bounded).'),
 'C17':dict(note='ReadIGESRecord (every file content: accepted lines, letter, sequence number, data columns, position), IGES::init, readTS, readDE, readPD, Read and Write (order of the sections, rewinding, refusal, result), writeStart and AddToHeader, and readDE/readPD and writePD of an entity are proved for every model, every list length and every file; loops by declared or found inductive invariants. Contracts used at calls: writeGlobals, readGlobals (C14), format, writeDE, readDE and associate (C06, C05), record layout (C02). GetHeaders, Cull, the file system and whole files read back are covered by the bounded replay only. The file stream is a library contract.'),
 'C18':dict(note='SetParams (line, arc, circle), all queries, GetLength, GetMidpoint, GetBoundingBox, reverse, Split with splitLine, splitArc and splitCircle (one and two points), PointMatches, NORMALIZE_ANGLES of MCAD_SEGMENT, and AddSegment, IsContiguous, AddCutout, AddOutline and SubOutline (around opOutline), calcBoundingBox and adjustBoundingBox of MCAD_OUTLINE are proved, for segments and outlines of any size, against the class invariant of a segment; loops by declared inductive invariants. atan2 is a library contract (range only), sqrt by its definition, doubles are reals. GetIntersections, IsInside and opOutline (the search for intersections and the choice of parts) are covered by the bounded replay only: random lines, arcs, circles and outlines against an independent numerical oracle.'),
}
NA={}
