#!/usr/bin/env python3
# Generates properties.jsonl (kept in the repository so that the list is reviewable in one place).
import json
P=[]
def p(id,title,statement,over,text,why,files,functions,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,functions=functions,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))

p('C01','Fixed-width integer fields hold exactly the value or are refused',
  'For every integer, formatting it as a fixed-width directory or sequence field yields exactly eight characters, right justified and blank padded, that denote that integer in decimal; an integer that does not fit in eight characters is refused and yields an empty field. Reading the eight-character field back, at any column of a record, yields the same integer.',
  ['inputs'],'all 2^32 integers, all field positions in a record',
  'The tests only write a few dozen small sequence numbers; every other value, the width boundary and negative values are never formatted.',
  ['src/iges/iges_io.cpp'],['FormatDEInt','DEItemToInt'],
  [('width check before padding','src/iges/iges_io.cpp FormatDEInt'),('8 column substring parse','src/iges/iges_io.cpp DEItemToInt')],
  ['return value and output string of FormatDEInt','value returned by DEItemToInt'])

p('C02','Section records are 80 columns, correctly lettered, numbered and unsplit',
  'Whatever sequence of items is appended to a Global or Parameter Data section, every emitted record has exactly 80 columns plus a newline, carries the section letter in column 73 and consecutive right-justified sequence numbers in columns 74-80, and in the Parameter Data section the owning directory entry number in columns 65-72. The data columns, read in order with the padding removed, are exactly the appended items in order, and no numeric item is split over two records.',
  ['inputs','histories'],'all items (up to the data width), all fill states of the current record, all sequence numbers 1..9999999, hence by induction all append sequences',
  'The regression files exercise a few hundred particular fill states; a wrong boundary at one fill state or sequence width is invisible to them.',
  ['src/iges/iges_io.cpp'],['AddPDItem','AddSecItem','AddPDHStr','AddSecHStr'],
  [('flush when item does not fit, pad, append letter and sequence','src/iges/iges_io.cpp AddPDItem/AddSecItem')],
  ['output text passed back by AddPDItem/AddSecItem'])

p('C03','String constants survive being written and read back',
  'A text string written as a length-prefixed (Hollerith) constant is encoded as its decimal length, the letter H and its characters unchanged, and reading that constant returns the identical string, consumes exactly the constant and its delimiter, and reports end of record exactly when the record delimiter followed it. This holds for any content, including delimiters, blanks and digits inside the string.',
  ['inputs'],'all strings, all start positions, all delimiter pairs',
  'Tests use a handful of plain file and author names; strings containing delimiters, the letter H, or only digits are never tried.',
  ['src/iges/iges_io.cpp'],['ParseHString','AddPDHStr','AddSecHStr'],
  [('count digits, take exactly that many characters, then require a delimiter','src/iges/iges_io.cpp ParseHString')],
  ['output string, index and end-of-record flag of ParseHString'])

p('C04','Free-format parameter readers stay in bounds and consume one parameter',
  'For every input text, start position and delimiter pair, reading one integer, real or string parameter never accesses text outside the input and either fails or succeeds; when it succeeds the position has advanced to just past the first delimiter that ends the parameter, and the end-of-record flag is set exactly when that delimiter is the record delimiter. An empty parameter yields the supplied default, or fails when there is none.',
  ['inputs'],'all texts, positions and delimiters',
  'Corrupt, truncated and hostile inputs are not in the test set; the tests only read files the library itself wrote.',
  ['src/iges/iges_io.cpp'],['ParseInt','ParseReal','ParseHString'],
  [('find first delimiter / bounds checks','src/iges/iges_io.cpp')],
  ['index, value and end-of-record outputs'])

p('C05','Directory entry fields map to the attributes they define, both ways',
  'Writing the directory entry of any entity places each attribute in the field the IGES standard assigns to it, and reading such a record assigns every field to the matching attribute, so that a written directory entry reads back identically. Pointer-valued attributes (line font, level, view, transformation, label, colour) are written as the signed sequence number of the entity they refer to.',
  ['inputs','configurations'],'all attribute values in their legal range, pointer or value form of each attribute',
  'Tests only write entities with default attributes and never compare the attributes after reading.',
  ['src/entities/iges_entity.cpp'],['IGES_ENTITY::writeDE','IGES_ENTITY::readDE'],
  [('20 fixed fields in order','src/entities/iges_entity.cpp writeDE/readDE')],
  ['directory entry text; attribute getters after a read'])

p('C06','Each entity type writes and reads its parameters in the standard order',
  'For every supported entity type, the parameter data written is the type number followed by the parameters of that type in the order of the IGES standard, integers and texts unaltered and reals to the resolution of the model, ended by exactly one record delimiter and followed by the comments of the entity. Reading parameter data assigns the i-th parameter to the same attribute, so that writing then reading an entity restores every parameter.',
  ['inputs','configurations'],'all parameter values and all list lengths, for each entity type',
  'Tests check that output files can be read again without an error return; they never compare parameter values, and several entity types are never written.',
  ['src/entities/entity100.cpp','src/entities/entity110.cpp','src/entities/entity124.cpp','src/entities/entity126.cpp','src/entities/entity128.cpp','src/entities/entity144.cpp'],
  ['IGES_ENTITY_nnn::format','IGES_ENTITY_nnn::readPD'],
  [('ordered item emission / ordered item parse','src/entities/entity*.cpp')],
  ['sequence of items in the parameter data section; attributes after a read'])

p('C07','References between entities stay exact: no duplicates, no leftovers',
  'Registering a parent on an entity records it exactly once, a repeated registration is reported as a duplicate and changes nothing, and unregistering removes exactly that parent and nothing else. Unlinking a child from an entity removes the reference of that entity to the child without calling the child back and leaves all its other references in place and in order; only a composite curve or boolean tree that loses an inner member gives up all its members. A setter, adder or remover records the entity as parent of a child exactly when it ends up referring to it, so that no reference to a destroyed entity survives any sequence of operations and deletions.',
  ['histories','inputs'],'all reference list contents and lengths, all arguments, all entity types',
  'Tests only build valid, fresh models; removals in the middle of lists, repeated registrations and failures are never exercised.',
  ['src/entities/iges_entity.cpp','src/entities/entity144.cpp','src/entities/entity142.cpp','src/entities/entity102.cpp'],
  ['IGES_ENTITY::addReference','IGES_ENTITY::delReference','IGES_ENTITY::unlink'],
  [('linear search then push_back / erase','src/entities/iges_entity.cpp')],
  ['reference lists after each call; return value; duplicate flag'],
  [('refs','list of parents of an entity','src/include/core/iges_entity.h')])

p('C08','A model owns each entity exactly once and forgets exactly what is removed',
  'Creating an entity in a model yields an object that reports the requested type, belongs to that model and is listed in it exactly once; adding an entity that is already listed changes nothing; removing or deleting an entity takes exactly that entity out of the list, keeping all others in order. A type the library does not implement yields an inert placeholder that remembers that type and takes no part in references; requests with a null argument or an entity that is not listed are refused without changing the model.',
  ['histories','inputs'],'all model contents, all entity types',
  'Tests add entities in one fixed order and never remove them individually.',
  ['src/iges/iges.cpp'],['IGES::NewEntity','IGES::AddEntity','IGES::DelEntity','IGES::UnlinkEntity'],
  [('switch on type, push_back, linear search','src/iges/iges.cpp')],
  ['entity list of the model; parent of the entity; return value'],
  [('entities','entities owned by a model','src/include/core/iges.h')])

p('C09','API handles never touch an object that is gone',
  'When the object behind an API handle has been destroyed, or the handle was never attached, every operation of the handle that needs the object returns failure (false or null) and neither reads nor writes the vanished object. Destroying an entity or a model marks every attached handle invalid, attaching marks it valid exactly once, and detaching marks it invalid without affecting other handles.',
  ['histories','inputs'],'every public operation of every handle class, in every handle state, for all arguments',
  'Use after the object is gone is a history no test performs; there are several hundred handle operations, each with its own guard.',
  ['src/dllapi/dll_iges_entity.cpp','src/dllapi/dll_iges.cpp','src/dllapi/dll_entity100.cpp','src/dllapi/dll_mcad_segment.cpp','src/dllapi/dll_mcad_outline.cpp','src/entities/iges_entity.cpp'],
  ['DLL_IGES_ENTITY::*','DLL_IGES::*','DLL_MCAD_SEGMENT::*','IGES_ENTITY::AttachValidFlag','IGES_ENTITY::DetachValidFlag'],
  [('validity flag registered with the object','src/entities/iges_entity.cpp AttachValidFlag')],
  ['return values of handle operations on an invalid handle; memory accesses'],
  [('m_valid','handle refers to a live object','src/include/api/dll_iges_entity.h')])

p('C10','Point, vector, matrix and transform operators obey their algebra',
  'Over the reals, the vector, matrix and rigid transform operators implement their mathematical definitions: sums, differences, scaling, matrix products and identity; applying a transform to a point is the rotation applied to the point plus the translation; and the product of two transforms applied to a point equals applying the second and then the first. In-place and binary forms of an operator agree, also when an operand is the target itself.',
  ['inputs'],'all operand values (as reals), all aliasing of operands',
  'Tests only use a few axis-aligned rotations, for which a swapped index or sign often gives the same result.',
  ['src/geom/mcad_elements.cpp'],['MCAD_MATRIX::operator*','MCAD_TRANSFORM::operator*','MCAD_POINT::operator+'],
  [('index loops over 3x3 entries','src/geom/mcad_elements.cpp')],
  ['returned values'])

p('C11','Rescaling multiplies every length once and nothing else',
  'Rescaling an entity by a factor multiplies exactly its length-valued parameters by that factor, each once, and leaves angles, directions, weights, knots, counts, flags and references unchanged.',
  ['inputs'],'all parameter values and list lengths, all factors, every entity type',
  'Tests rarely change units, so the rescaling code of most entity types is never run.',
  ['src/entities/entity100.cpp','src/entities/entity124.cpp','src/entities/entity126.cpp','src/entities/entity128.cpp','src/entities/entity514.cpp'],
  ['IGES_ENTITY_nnn::rescale'],[('per-field multiplication','src/entities/entity*.cpp rescale')],
  ['parameter values after the call'])

p('C12','Curve end points are the defined points, mapped by the transform',
  'For circular arcs and lines, the reported start and end points are exactly the points given in the entity parameters, and when the transformed form is requested and the entity has a transformation they are exactly the image of those points under that transformation, composed with all transformations it refers to.',
  ['inputs','configurations'],'all coordinates and transforms (as reals), transform present or absent, requested or not',
  'Tests use untransformed curves.',
  ['src/entities/entity100.cpp','src/entities/entity110.cpp','src/entities/entity124.cpp'],
  ['IGES_ENTITY_100::GetStartPoint','IGES_ENTITY_110::GetStartPoint','IGES_ENTITY_124::GetTransformMatrix'],
  [('apply GetTransformMatrix to point','src/entities/entity110.cpp')],['points returned'])

p('C13','Refused attribute changes leave the entity unchanged',
  'For every entity type, a call that sets the form number, use, hierarchy, dependency, visibility, line weight, level, line font, colour, label or subscript to a value either leaves every attribute of the entity as it was, or returns true and changes exactly that attribute to the requested value; it never stores a value outside the range the standard defines for that attribute. A line weight above the number of gradations of the model is limited to it, a label to its first eight characters.',
  ['inputs'],'all values, every entity type',
  'Tests set few attributes and only legal values.',
  ['src/entities/iges_entity.cpp','src/entities/entity100.cpp'],['IGES_ENTITY::SetEntityForm','IGES_ENTITY::SetEntityUse','IGES_ENTITY::SetLevel'],
  [('range check before assignment','src/entities/*.cpp')],['attributes after the call; return value'])

p('C14','The Global section is validated, applied and written as it is defined',
  'A date in the Global section is accepted exactly when it is a valid calendar date and time in the 13-character (YYMMDD.HHNNSS) or 15-character (YYYYMMDD.HHNNSS) form (second 60 is allowed; the century of a two-digit year is open), and no date text makes the check read outside its tables. A Global section is accepted exactly when its delimiters are allowed and distinct and each parameter is present, or has a default, and lies in its defined range; each parameter or its default then reaches its own attribute, the model is brought to millimetres at scale 1 by the size of the unit over the model scale (a user-defined unit is kept with its name), and the units name is that of the units flag. A written Global section holds each item in its place, with the delimiters of the model. A change of units is accepted exactly for units whose size is known; it sets the flag and the name, converts the resolution with the model, and a refused change changes nothing.',
  ['inputs'],'all Global section texts, dates, delimiters, parameter values and units; every Global attribute value on output',
  'Tests read only a few dates and Global sections that common CAD systems generated, in millimetres or inches.',
  ['src/iges/iges.cpp'],['checkDate','IGES::readGlobals','IGES::writeGlobals','IGES::ConvertUnits','IGES::GetUnitName'],
  [('month table, field ranges, defaults','src/iges/iges.cpp'),('tables of unit names and sizes','src/iges/iges.cpp')],['result of Read and ConvertUnits; global data and coordinates after the call; Global lines of the written file'])

p('C15','File paths split and join without loss',
  'For every path and every sequence of path changes, the reported file name is the base name, plus a dot and the extension exactly when there is one (the last dot of the file name starts the extension unless it is its first character); the directory part and the file name concatenate to the full path, in which foreign separators are replaced. A change of extension keeps the directory and the base name and replaces, adds or removes only the extension; a refused one changes nothing. Append adds exactly one separator (none to an empty path) and the part given. Every reported part always agrees with the current path, whatever was asked for before, and success is reported as such.',
  ['inputs','histories'],'all strings, all sequences of part changes and queries',
  'Only a few plain file names are used by the tests.',
  ['src/iges/mcad_utils.cpp'],['MCAD_FILEPATH::SetPath','MCAD_FILEPATH::GetFileName','MCAD_FILEPATH::GetBaseName','MCAD_FILEPATH::GetExtension','MCAD_FILEPATH::SetExtension','MCAD_FILEPATH::Append'],
  [('find_last_of separators','src/iges/mcad_utils.cpp')],['returned strings'])

p('C16','IDF text is split, and keywords and units keep their meaning',
  'Splitting an IDF line into tokens never looks outside the line, always advances and returns each blank-separated or quoted token unaltered. Each owner, layer, placement, plating, reference, hole type, section end and unit keyword is read in any letter case to its own value, and the text written for a value is its keyword; any other text is refused, except that an unknown owner of an outline counts as UNOWNED and that a hole type or a reference designator which is no keyword is kept as given. Lengths in THOU and TNM become millimetres. A hole, note, outline section or board that is read, written in either unit and read again has the same keywords and texts, and the same positions and sizes up to the precision of the file.',
  ['inputs'],'all lines and start positions; all keywords, units and record texts; every value written',
  'Tests read a few well-formed sample boards in millimetres only and never write IDF.',
  ['src/idf/idf_helpers.cpp','src/idf/idf_common.cpp','src/idf/idf_outlines.cpp','src/idf/idf_parser.cpp'],['IDF3::GetIDFString','IDF3::CompareToken','IDF3::ParseOwner','IDF3::ParseIDFLayer','IDF_DRILL_DATA::read','IDF_DRILL_DATA::write','IDF3_COMP_OUTLINE_DATA::readPlaceData','IDF3_BOARD::ReadFile','IDF3_BOARD::WriteFile'],
  [('character scan with length checks','src/idf/idf_helpers.cpp'),('keyword tables','src/idf/idf_common.cpp')],['token, position and flag outputs; values of records after reading; text of written files'])
p('C17','A written file is complete and consistent, and reads back as the model',
  'A successful write gives a file of the sections Start, Global, Directory, Parameter and Terminate, in this order. Every line has 80 columns, with the section letter in column 73 and sequence numbers from 1 without gaps; the k-th entity has the directory number 2k-1, its parameter pointer and line count select exactly the parameter lines which point back to it, and these ranges cover the Parameter section without gap or overlap; the Terminate line holds the four line counts; the Start section is the header lines (printable text), split or padded to 72 columns, in their order. Reading that file gives the same header lines and the same number, types, order and references of entities. A refused write (no entities, an existing file without permission to overwrite, a file which cannot be opened, an entity which cannot be formatted) changes no file, and a write which could not be completed is not reported as success. A file with a missing, disordered or misnumbered section or a wrong line length is refused; a refused file leaves the model empty, and reading never accesses memory outside its buffers.',
  ['inputs','histories'],'all models (any number of entities, header lines and parameter lines), all file contents, all results of the file system',
  'Tests write a few valid models with a handful of entities and never read a damaged file or write to a full device.',
  ['src/iges/iges.cpp','src/iges/iges_io.cpp','src/entities/iges_entity.cpp'],['IGES::Read','IGES::Write','IGES::writeStart','IGES::readDE','IGES::readPD','IGES::readTS','IGES_ENTITY::writePD','ReadIGESRecord'],
  [('section order, sequence numbers and counters','src/iges/iges.cpp'),('line length, letter and number of a record','src/iges/iges_io.cpp')],['text of the written file; result of Read and Write; model after reading'])
p('C18','Segments and outlines keep their geometry',
  'A segment set from points has exactly these ends, centre, radius and direction, reports the length, midpoint and exact extent of that curve, and refuses points which define none. Reversing it runs the same curve backwards; splitting it at points on it gives consistent pieces which follow each other and together are the segment. An outline accepts a segment exactly when it continues the outline, closes when the start is reached, then runs counterclockwise without gaps, and its extent covers every segment. Lines, arcs and circles in general position meet exactly at the reported points. Adding or subtracting a closed outline or circle which crosses an outline transversally at two points away from its vertices gives the union or difference as a closed, gapless outline; a cutout is merged once or kept, never lost.',
  ['inputs','histories'],'all lines, arcs and circles with ends in any order and direction; all lists of split points; outlines of any number of segments; sequences of additions, subtractions and cutouts',
  'Tests draw a few fixed outlines with counterclockwise arcs for inspection by eye and check no result.',
  ['src/geom/mcad_segment.cpp','src/geom/mcad_outline.cpp','src/geom/mcad_helpers.cpp'],['MCAD_SEGMENT::SetParams','MCAD_SEGMENT::Split','MCAD_SEGMENT::reverse','MCAD_SEGMENT::GetBoundingBox','MCAD_SEGMENT::GetIntersections','MCAD_OUTLINE::AddSegment','MCAD_OUTLINE::AddOutline','MCAD_OUTLINE::SubOutline','MCAD_OUTLINE::AddCutout','MCAD_OUTLINE::IsInside'],
  [('angle normalization and CW bookkeeping','src/geom/mcad_segment.cpp'),('chain of segments, winding and stitching at crossings','src/geom/mcad_outline.cpp')],['ends, angles, length, midpoint, extent and pieces of segments; segments, cutouts and extent of an outline; point-in-outline answers'])
open('properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
