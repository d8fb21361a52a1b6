"""The properties and the method that decides each."""
NOT_APPLICABLE = []
ST = 'the source as compiled by the project\'s own build commands, re-read on every run'
PROPS = [
 dict(id='P01', title='Every value of a named option survives being written out and read back',
  statement='For every COLLADA option that is stored in the model as an enumerated kind and in the document as text (interpolation, texture filter and wrap mode, primitive, render state, light kind, joint constraint and the like), the text produced for a kind is converted back to that same kind. No two kinds share a text, and a kind the library can hold always has a text of its own rather than the "unknown" text.',
  over=['inputs'], quant='every enumerator of every enumeration with a to-text and from-text conversion, in both directions',
  why='The sample tests export and re-import a handful of kinds; most of the several hundred enumerators are never exercised, and a swapped or missing entry silently loads as another kind.',
  files=['FCollada/FUtils/FUDaeEnum.h', 'FCollada/FUtils/FUDaeEnum.cpp', 'FCollada/FCDocument/FCDEffectParameterSampler.cpp'],
  mech=[('pairs of conversion functions and static tables', 'FCollada/FUtils/FUDaeEnum.h'), ('dispatch on text hash', 'FCollada/FUtils/FUDaeEnum.h')],
  technique='Static constant-propagation evaluation (abstract interpretation with path enumeration) of each conversion function over its finite enumeration',
  note='Every enumerator of every paired conversion is evaluated from the source; the functions\' branches and tables are enumerated, none is sampled or run.'),
 dict(id='P02', title='Every error code the library can raise has its own message',
  statement='Whatever error, warning or debug code is reported to a user of the library, looking it up gives a specific text and not the generic "unknown" message, and two different codes do not share one text by accident of a missing entry.',
  over=['inputs', 'programs'], quant='every error code defined by the library, and every code raised at any reporting site',
  why='Tests do not trigger most of the several hundred failure conditions, and none looks at the message that goes with a code.',
  files=['FCollada/FUtils/FUError.cpp', 'FCollada/FUtils/FUError.h'],
  mech=[('code to message mapping', 'FCollada/FUtils/FUError.cpp'), ('error reporting entry points', 'FCollada/FUtils/FUError.h')],
  technique='Static evaluation of the message lookup for every enumerator, plus a call-site query over all reporting sites',
  note='Every code is evaluated from the source and every reporting call site is enumerated.'),
 dict(id='P03', title='Objects are created as the kind that was asked for',
  statement='Asking the library to create a library entity, transform, effect parameter, pass state, physics analytical shape, spline or similar object of a given kind yields an object that reports exactly that kind; a kind that has an implementation is never answered with nothing. Different kinds of object always report different kinds.',
  over=['inputs'], quant='every kind accepted by every creation function, and every concrete class with a kind of its own',
  why='Tests create only a few kinds; a wrong or missing entry shows only when a document uses that kind, and then as a bad downcast.',
  files=['FCollada/FCDocument/FCDEffectParameterFactory.cpp', 'FCollada/FCDocument/FCDTransform.cpp', 'FCollada/FCDocument/FCDEffectParameterSurface.cpp', 'FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp', 'FCollada/FCDocument/FCDGeometrySpline.cpp'],
  mech=[('creation functions switching on the kind', 'FCollada/FCDocument/FCDTransform.cpp'), ('kind query of every class', 'FCollada/FCDocument/FCDTransform.h')],
  technique='Static constant-propagation evaluation of factory functions and of the built class\'s own kind query, over the finite kind enumerations',
  note='Every factory is found by shape (kind in, derived object out) and evaluated for every enumerator from the source.'),
 dict(id='P04', title='Run-time type tests agree with the class hierarchy',
  statement='Every model object reports a run-time type of its own, distinct from that of every other class, whose parent chain is exactly its base-class chain; testing an object for a type holds exactly for its own class and its bases. Releasing an object destroys it exactly once.',
  over=['inputs', 'programs'], quant='every class below the common object base, and every type test between any two of them',
  why='A type test is made against one or two classes in the tests; a missing or wrong declaration in any other class makes guarded downcasts accept or refuse the wrong objects.',
  files=['FCollada/FUtils/FUObject.h', 'FCollada/FUtils/FUObjectType.h', 'FCollada/FCDocument/FCDEntity.h', 'FCollada/FCDocument/FCDEffectParameter.h'],
  mech=[('per-class type object and query', 'FCollada/FUtils/FUObject.h'), ('type chain test', 'FCollada/FUtils/FUObjectType.h')],
  technique='Static query over the type-checked class hierarchy plus abstract evaluation of the type-test functions',
  note='All classes under the object base are enumerated from the compiled program.'),
 dict(id='P05', title='A newly created object has no undefined state',
  statement='Every number, flag, kind and plain pointer held by a model object has a defined value as soon as the object has been constructed, whichever constructor was used. Nothing a user can read from a fresh object depends on what the memory held before.',
  over=['inputs', 'histories'], quant='every constructor of every class below the common object base and every plainly typed member',
  why='Uninitialised members usually read as zero in a test process; only particular allocation histories expose them.',
  files=['FCollada/FCDocument/FCDEntity.cpp', 'FCollada/FCDocument/FCDGeometrySpline.cpp', 'FCollada/FCDocument/FCDAnimationCurve.cpp', 'FCollada/FCDocument/FCDCamera.cpp', 'FCollada/FUtils/FUParameter.h'],
  mech=[('constructors and their initialiser lists', 'FCollada/FCDocument/FCDEntity.cpp'), ('parameter wrappers', 'FCollada/FUtils/FUParameter.h')],
  technique='Static must-assign dataflow over each constructor\'s control-flow graph, following calls on the object under construction',
  note='All constructors and all scalar, enumeration, pointer and wrapped-parameter members are enumerated; a member counts only when assigned on every path.'),
 dict(id='P06', title='A copy of an object carries everything the object holds',
  statement='Cloning a model object gives an object of the same kind that carries the value of every setting, name, sub-identifier, flag and list of the original, including those of its base kinds, and copies of the parts the original owns. No value is left at its default, dropped, or stored in the wrong place.',
  over=['inputs'], quant='every clonable class and every member a user can read back, including members of its bases',
  why='The tests clone a few objects and compare a few fields; a member that is forgotten keeps its default and shows only for documents that set it.',
  files=['FCollada/FCDocument/FCDEntity.cpp', 'FCollada/FCDocument/FCDSceneNode.cpp', 'FCollada/FCDocument/FCDEffectStandard.cpp', 'FCollada/FCDocument/FCDPhysicsShape.cpp', 'FCollada/FCDocument/FCDAnimationCurve.cpp', 'FCollada/FCDocument/FCDCamera.cpp'],
  mech=[('Clone member functions', 'FCollada/FCDocument/FCDEntity.cpp'), ('clone functions of parts', 'FCollada/FCDocument/FCDGeometryMesh.cpp')],
  technique='Static dataflow (member-to-member transfer summaries through copy helpers, accessors and base calls) over every cloning function, against the class members found in the program',
  note='Every class with a cloning function and every member of it and of its bases is an obligation; reference and bookkeeping members are excluded by rule (see DESIGN.md).'),
 dict(id='P07', title='What the exporter writes under a name, the importer reads from it',
  statement='Every value that export stores in a COLLADA document is stored under the element, attribute, semantic or parameter name from which import fills that same value, and every value import fills has such a name on the export side. No name carries one value on the way out and another on the way in, and no value is written where nothing reads it.',
  over=['inputs'], quant='every value transferred between the model and the document by any export or import routine, and every name the writer uses',
  why='The tests round-trip a handful of documents and compare few members; a name misspelled, dropped or swapped between two members on one side loses or exchanges data only in documents that use that feature.',
  files=['FColladaPlugins/FArchiveXML/FAXCameraExport.cpp', 'FColladaPlugins/FArchiveXML/FAXCameraImport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp', 'FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp'],
  mech=[('export routines: model to XML', 'FColladaPlugins/FArchiveXML/FAXCameraExport.cpp'), ('import routines: XML to model', 'FColladaPlugins/FArchiveXML/FAXCameraImport.cpp')],
  technique='Static interprocedural taint dataflow relating each model member to the XML names it is written under and read from, and comparison of the two relations',
  note='Members, names and both directions are enumerated from the source; names composed at run time are compared by their constant parts.'),
 dict(id='P08', title='A value export leaves out is the value import assumes for it',
  statement='Where export omits a value from the document because of what the value is (it equals a default, or is empty or zero), import of a document without that element or attribute leaves exactly the omitted value in the model. Export omits one single value this way, never a range of values.',
  over=['inputs'], quant='every value whose export depends on the value itself, with the matching import routine and constructors',
  why='The condition, the import routine and the constructor live in three places; the tests never compare a default-valued object after a round trip.',
  files=['FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp', 'FColladaPlugins/FArchiveXML/FAXEntityExport.cpp', 'FCollada/FCDocument/FCDEffectParameterSurface.cpp', 'FCollada/FCDocument/FCDImage.cpp'],
  mech=[('omission conditions in export routines', 'FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp'), ('defaults given by constructors', 'FCollada/FCDocument/FCDEffectParameterSurface.cpp')],
  technique='Static derivation of the omitted value from the export conditions (through accessors) and of the absent-name value from the import dataflow and the constructors, and their comparison',
  note='Conditions that mix several values are counted as not decided and reported in the evidence.'),
 dict(id='P09', title='A lookup that finds nothing is checked before its result is used',
  statement='Import, export and processing survive absent parts: an element missing from a document, a link that resolves to nothing, or a search, conversion or allocation helper that answers "nothing" is noticed before the answer is dereferenced. No routine uses, on any path, a result that may be null there.',
  over=['inputs'], quant='every document, complete or not, and every path through every library function',
  why='The tests use well-formed documents in which every lookup succeeds; the failing lookups are reached only by incomplete or inconsistent documents.',
  files=['FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp', 'FColladaPlugins/FArchiveXML/FAXControllerImport.cpp', 'FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp', 'FCollada/FCDocument/FCDPhysicsShape.cpp'],
  mech=[('lookups in imported documents', 'FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp'), ('uses of optional parts', 'FCollada/FCDocument/FCDPhysicsShape.cpp')],
  technique='Flow-sensitive interprocedural null dataflow over the control-flow graph of every library function, with function summaries and path partitioning on flags',
  note='Sources are the functions that can answer null on some path; container element accessors and a short table of factories are trusted (see DESIGN.md).'),
 dict(id='P10', title='A setting reads back as it was set and disturbs no other setting',
  statement='After a setting of a model object is set to a value, the matching query answers that value, whatever the value and whatever was set before; the answers of the object\'s other, unrelated settings are what they were. Switching one flag of an object on or off changes that flag only.',
  over=['inputs', 'histories'], quant='every pair of a setter and a matching query of every class, every value and every prior state of the object',
  why='Tests set a few values on a few classes; a setter that stores in the wrong place, ignores some values or clobbers a neighbouring flag goes unnoticed.',
  files=['FCollada/FCDocument/FCDCamera.h', 'FCollada/FCDocument/FCDLight.h', 'FCollada/FCDocument/FCDImage.h', 'FCollada/FCDocument/FCDAsset.h', 'FCollada/FCDocument/FCDEffectStandard.cpp', 'FCollada/FCDocument/FCDSceneNode.cpp', 'FCollada/FUtils/FUParameter.h'],
  mech=[('setters and getters', 'FCollada/FCDocument/FCDCamera.h'), ('flags shared in one word', 'FCollada/FUtils/FUObject.h')],
  technique='Static copy-propagation over terms: each setter is evaluated for an unknown value on an object of unknown state, path by path, followed by the queries',
  note='Setters whose reading is by design something else (numeric conversion, links resolved by identifier, absolute file names) are listed in DESIGN.md and counted as not decided.'),
 dict(id='P11', title='Counts, elements, additions and removals of a list are about one list',
  statement='For every list a model object offers, the count is the number of elements the indexed query accepts, an indexed query answers the element of that same list at that index, an addition puts the new element in that list on every path that reports one, and a removal takes from that list. Lists kept per kind or channel use the same kind or channel for the count, the query and the addition.',
  over=['inputs', 'histories'], quant='every list accessor of every model class, every index and every prior content',
  why='The accessors of a list are a dozen near-identical lines per class; one that speaks of a neighbouring list is right for objects in which both lists have the same content, as in most tests.',
  files=['FCollada/FCDocument/FCDSceneNode.h', 'FCollada/FCDocument/FCDEffectProfileFX.h', 'FCollada/FCDocument/FCDEffectStandard.h', 'FCollada/FCDocument/FCDGeometryPolygons.h', 'FCollada/FCDocument/FCDPhysicsRigidBodyParameters.h', 'FCollada/FCDocument/FCDSkinController.h'],
  mech=[('list accessors', 'FCollada/FCDocument/FCDSceneNode.h'), ('additions', 'FCollada/FCDocument/FCDEffectStandard.cpp')],
  technique='Static effect analysis and copy propagation of every count, indexed query, addition and removal, resolved to the member list it touches',
  note='Accessors are found by shape in the class declarations; the list member each one reaches is derived from its body.'),
 dict(id='P12', title='Vector, matrix, quaternion, colour and bounding arithmetic is right',
  statement='Every arithmetic operation on vectors, matrices, quaternions, colours, bounding boxes and spheres and elementary volumes yields, in every component and on every path, what its mathematical definition says, up to rounding: sums, products, transposes, determinants and inverses, rotations and their conversions to and from angles, inclusion, overlap and containment. Degenerate inputs (zero length, zero determinant) are outside the claim.',
  over=['inputs'], quant='every operation with a defining formula, every component of the result, every input and every sign case',
  why='Tests check a few numeric examples, many with symmetric or unit inputs for which swapped components, wrong signs or a missed branch cancel out.',
  files=['FCollada/FMath/FMMatrix44.cpp', 'FCollada/FMath/FMMatrix33.cpp', 'FCollada/FMath/FMQuaternion.cpp', 'FCollada/FMath/FMVector3.cpp', 'FCollada/FMath/FMVolume.cpp', 'FCollada/FUtils/FUBoundingBox.cpp', 'FCollada/FUtils/FUBoundingSphere.cpp'],
  mech=[('matrix algebra', 'FCollada/FMath/FMMatrix44.cpp'), ('quaternions', 'FCollada/FMath/FMQuaternion.cpp'), ('bounds', 'FCollada/FUtils/FUBoundingBox.cpp')],
  technique='Static value numbering into an algebraic normal form (quotients of polynomials over the inputs, sign cases per path), compared with the defining formula',
  note='No number is computed: each function is reduced to a formula per path from its source and the formulas are compared; rounding is outside the claim.'),
 dict(id='P13', title='Quantities derived from a document follow from its data',
  statement='The matrix of a transform, the local and world matrix of a scene node, the opacity and reflectivity of a material, the volume of an analytical physics shape and the aspect ratio of a camera are what their definitions give for the stored data: angles stored in degrees are used as such, transforms apply in their listed order and below the parent\'s. One transform is reported as the inverse of another exactly when its data negates the other\'s.',
  over=['inputs'], quant='every such derived quantity, every value of the data and every path',
  why='Tests use identity or single-axis data, for which the order of a product, the unit of an angle or a swapped component does not show.',
  files=['FCollada/FCDocument/FCDTransform.cpp', 'FCollada/FCDocument/FCDSceneNode.cpp', 'FCollada/FCDocument/FCDEffectStandard.cpp', 'FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp', 'FCollada/FCDocument/FCDCamera.cpp'],
  mech=[('transform matrices', 'FCollada/FCDocument/FCDTransform.cpp'), ('world transforms', 'FCollada/FCDocument/FCDSceneNode.cpp'), ('opacity', 'FCollada/FCDocument/FCDEffectStandard.cpp')],
  technique='Static value numbering into an algebraic normal form over the stored data, compared with the defining formula on every path',
  note='A scene node is analysed with up to three unknown transforms and up to one parent of unknown world matrix; longer lists follow the same loop.'),
 dict(id='P14', title='Every kind of object reaches its own import and export routine',
         statement='''For every kind of object, import and export each have a routine made for that very kind; it also handles the part common to the kind's base on every path that reports success, and the element it is written as is one import takes for the same kind. Every library of a document is exported, imported as a library of its own kind of entities from the element it is exported as, and searched when an entity is looked up by id.''',
         over=['inputs'], quant='every kind of object, every element name, every path of an import or export routine',
         why='Each kind has its own entry in two tables and its own element name; tests open a handful of documents and would not notice a kind that lost its entry, a base part skipped on one path, or a library read as another.',
         files=['FColladaPlugins/FArchiveXML/FArchiveXML.cpp', 'FColladaPlugins/FArchiveXML/FAXSceneImport.cpp', 'FColladaPlugins/FArchiveXML/FAXSceneExport.cpp', 'FCollada/FCDocument/FCDocument.cpp'],
         mech=[('routine tables and libraries', 'FColladaPlugins/FArchiveXML/FArchiveXML.cpp'), ('kinds by element name', 'FColladaPlugins/FArchiveXML/FAXSceneImport.cpp'), ('look-up over libraries', 'FCollada/FCDocument/FCDocument.cpp')],
         technique='static analysis: registration tables read from the typed syntax tree, must-call dataflow on CFGs, per-name reachability and symbolic evaluation of dispatch functions',
         note='''element names of kinds loaded by any name in their library are only required to be distinct'''),
 dict(id='P15', title='Every component of a composite value comes back from its own place',
         statement='''Where a value made of several numbers (vector, colour, matrix, rotation, look-at, skew, plane, tangent, easing and the like) is exported as text, each number stands at the very place, and on the very scale, from which import fills that same component. Text conversions of vectors and matrices take and give the components in one fixed order, each apart from the next, also within lists. The parts of an animation key are read from the place of the source that export puts them in.''',
         over=['inputs'], quant='every number import reads into the model and every number export writes under the same name',
         why='A swapped pair of components survives any test whose values are symmetric, zero or one; and the two sides are in different files. The rule compares all places of all values.',
         files=['FColladaPlugins/FArchiveXML/FAXSceneImport.cpp', 'FColladaPlugins/FArchiveXML/FAXSceneExport.cpp', 'FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp', 'FCollada/FUtils/FUStringConversion.hpp'],
         mech=[('transforms', 'FColladaPlugins/FArchiveXML/FAXSceneImport.cpp'), ('animation keys', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp'), ('vectors and matrices as text', 'FCollada/FUtils/FUStringConversion.hpp')],
         technique='static analysis: abstract interpretation of the readers and writers over a domain of text positions and linear formulas, compared position by position',
         note='''values computed from several numbers of the text are not compared; numeric precision is not part of the claim'''),
 dict(id='P16', title='An animation drives the component its target names',
         statement='''Each slot of an animated value holds the pointer to the very component that its qualifier names, in the order in which the element's text lists the components, and the value, qualifier and curves of one slot are always used together. Import binds an animation to the member whose element it was found on, export writes it on the element holding that member, every animated member that is read is written and vice versa, and copying a value's animation goes where the value goes. When a list of animatable values grows or shrinks, its animations follow the elements they drive and point to them again.''',
         over=['inputs'], quant='every animatable type, every member of the model bound to an animation on import or export, every edit of a list of animatable values',
         why='Most tests animate one component of one value; a crossed pointer, slot or member shows only with another component animated, after another edit, or after a round trip of another entity.',
         files=['FCollada/FCDocument/FCDAnimated.cpp', 'FCollada/FCDocument/FCDParameterAnimatable.cpp', 'FCollada/FCDocument/FCDParameterAnimatable.hpp', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp', 'FColladaPlugins/FArchiveXML/FAXLightImport.cpp', 'FColladaPlugins/FArchiveXML/FAXLightExport.cpp'],
         mech=[('slots', 'FCollada/FCDocument/FCDParameterAnimatable.cpp'), ('curves and values', 'FCollada/FCDocument/FCDAnimated.cpp'), ('lists', 'FCollada/FCDocument/FCDParameterAnimatable.hpp'), ('channels', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp')],
         technique='static analysis: abstract interpretation of the bindings between members, text positions, qualifiers and slots; symbolic edit effects of the animatable lists',
         note='''times, interpolation and evaluation of curves are not part of the claim; nor whether a curve is found for a target at all'''),
 dict(id='P17', title='Whoever refers to a released object is told, exactly once',
         statement='''A tracked pointer, tracked list, owning reference or container, animated value, entity instance, entity reference, geometry input or placeholder is registered, after every operation, with exactly the objects it refers to. An object that is released tells every tracker and its owner exactly once; whoever is told recognises the object and lets go of it, and a holder that goes away is registered with nothing. Owners release what they let go of exactly once, and copying a holder registers the copy with the same objects.''',
         over=['inputs', 'histories'], quant='every operation of the holders, from every starting state up to three objects, with objects held, new, missing or the holder itself; every method of the classes that register themselves',
         why='Tests release objects after one or two operations; a registration forgotten or left behind shows only when an object is released after a particular history, and then as a dangling pointer.',
         files=['FCollada/FUtils/FUTracker.h', 'FCollada/FUtils/FUTracker.cpp', 'FCollada/FUtils/FUObject.h', 'FCollada/FUtils/FUObject.cpp', 'FCollada/FCDocument/FCDEntityReference.cpp', 'FCollada/FCDocument/FCDPlaceHolder.cpp', 'FCollada/FCDocument/FCDAnimated.cpp', 'FCollada/FCDocument/FCDGeometryPolygonsInput.cpp', 'FCollada/FCDocument/FCDEntityInstance.cpp'],
         mech=[('trackers', 'FCollada/FUtils/FUTracker.h'), ('owners', 'FCollada/FUtils/FUObject.h'), ('release', 'FCollada/FUtils/FUTracker.cpp'), ('entity references', 'FCollada/FCDocument/FCDEntityReference.cpp')],
         technique='static analysis: typestate of registrations by abstract interpretation of every operation of the holders, on the template definitions; a copy rule over the types',
         note='''raw pointers that are kept without registration (parents, owners' back pointers) are not part of the claim'''),
    dict(id='P18', title='A part that fails to load or save makes the whole operation fail',
         statement='''Whenever a routine that loads, links or saves a part of a document reports failure, every routine that used it reports failure too, up to the load or save the user asked for, whatever the other parts answer before or after it. A file without a root element, a file that cannot be written and an exception during the operation are failures of the operation as well.''',
         over=['inputs', 'fault_sequences'], quant='every use of every routine whose answer can be failure, on every path from the use to a return of the routine that used it',
         why='Tests load documents that are right; a failure that is dropped, or overwritten by a later success, needs a document with one bad part in one particular place.',
         files=['FColladaPlugins/FArchiveXML/FArchiveXML.cpp', 'FColladaPlugins/FArchiveXML/FAXSceneImport.cpp', 'FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp', 'FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXControllerImport.cpp', 'FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp', 'FCollada/FColladaPlugin.cpp', 'FCollada/FCollada.cpp'],
         mech=[('archive', 'FColladaPlugins/FArchiveXML/FArchiveXML.cpp'), ('plug-ins', 'FCollada/FColladaPlugin.cpp'), ('top level', 'FCollada/FCollada.cpp')],
         technique='static analysis: path-sensitive flow of each failed answer through the control-flow graph of its user, with the routines that can fail found by a fixpoint over the call graph',
         note='''which malformed contents a routine rejects, and which it only warns about, is not decided'''),
    dict(id='P19', title='A malformed document never makes import read outside of its lists',
         statement='''Whatever a document contains (fewer values, names, offsets, influences or weights than it declares, indices beyond the data, interleaved sources of any stride), the import code, its text and XML scanners, the XML export code and the curve-merging code index growable lists and fixed-size tables inside their bounds only. An array of objects handed out by the model is indexed below the number of objects it holds, and an array of pointers is never walked as an array of objects.''',
         over=['inputs'], quant='every indexing, first/last access and removal by position of a growable list or fixed table in the reader, the writer, the scanners and the curve tools, in every state that reaches it',
         why='Tests load well-formed documents, whose lists always have the declared lengths; an index beyond a list needs a document that lies about exactly that list.',
         files=['FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXControllerImport.cpp', 'FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp', 'FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp', 'FColladaPlugins/FArchiveXML/FAXSceneImport.cpp', 'FColladaPlugins/FArchiveXML/FArchiveXML.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp', 'FCollada/FUtils/FUStringConversion.cpp', 'FCollada/FUtils/FUXmlParser.cpp', 'FCollada/FCDocument/FCDAnimationCurveTools.cpp', 'FCollada/FCDocument/FCDAnimationMultiCurve.cpp'],
         mech=[('readers', 'FColladaPlugins/FArchiveXML/'), ('scanners', 'FCollada/FUtils/FUXmlParser.cpp'), ('curves', 'FCollada/FCDocument/FCDAnimationCurveTools.cpp')],
         technique='static analysis: abstract interpretation of list lengths and integers with linear inequalities over the control-flow graph, with summaries of the helpers, inferred parallel-list invariants and the states of the callers',
         note='''per-key component arrays, strings, maps and iterators are not indexed lists here; an index that a virtual member is handed through the public interface is the contract of whoever calls it'''),
    dict(id='P20', title='What a routine acquires is released once, and in the form it was acquired',
         statement='''Whatever path a routine takes, the memory, XML text, XML documents and nodes, files, directories and objects it acquires are handed to an owner, returned, or released before it ends, and with the operation that matches how they were acquired. An object that owns such a thing releases it when it is destroyed, when it is given another one, and when an element is dropped from a list it owns. What was released is not used afterwards, and an object deleted through its base class has a virtual destructor.''',
         over=['inputs', 'histories'], quant='every allocation, every acquiring C call, every routine that hands out what it acquired, every owning member and list, and every release, on all paths of the routine',
         why='A lost allocation or a mismatched release changes no result a unit test looks at; the paths that lose something are early returns on odd documents and second calls of a setter.',
         files=['FCollada/FUtils/FUXmlDocument.cpp', 'FCollada/FUtils/FUXmlParser.cpp', 'FCollada/FUtils/FUPluginManager.cpp', 'FCollada/FUtils/FUFile.cpp', 'FCollada/FUtils/FUStringBuilder.hpp', 'FCollada/FCDocument/FCDAnimationCurve.cpp', 'FCollada/FCDocument/FCDAnimationKey.cpp', 'FCollada/FCDocument/FCDPhysicsShape.cpp', 'FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp', 'FCollada/FCDocument/FCDEffectParameterSurface.cpp', 'FCollada/FCDocument/FCDGeometryPolygonsTools.cpp', 'FCollada/FCDocument/FCDLightTools.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp'],
         mech=[('text and files', 'FCollada/FUtils/'), ('document', 'FCollada/FCDocument/'), ('export', 'FColladaPlugins/FArchiveXML/')],
         technique='static analysis: path-sensitive ownership (typestate) analysis over the control-flow graph with inferred summaries of what routines do with the pointers they are handed and which of them hand out what they acquired',
         note='''an object kept by a container or a tracked list of the document is taken over there (its release is the document's teardown); two members that share one object, and ownership that depends on a flag, are only checked to be released somewhere in the destructor'''),
    dict(id='P21', title='No loop goes round for ever, whatever it is given to read',
         statement='''Every loop of the library comes to an end: on each way around it, something the decision to go round again depends on has changed - the text being read has moved on, a count has stepped towards its bound, a list has grown shorter, an interval of a search has become smaller. In particular a reader of numbers, names or paths steps over what it cannot use instead of looking at it again, a search by halves never keeps the same half for ever, and a routine that drops entries from a list drops one on every way around or moves past it. No counter wraps around or is counted with a type too narrow to reach its bound.''',
         over=['inputs', 'histories'], quant='every loop of the library and the archive plug-in, every way around it',
         why='A loop that spins does so only for the odd input: garbage in a list of numbers, a path ending in two slashes, a face larger than the limit, a penumbra without a zero; a test that met it would not fail but hang.',
         files=['FCollada/FUtils/FUStringConversion.cpp', 'FCollada/FUtils/FUStringConversion.hpp', 'FCollada/FUtils/FUUri.cpp', 'FCollada/FUtils/FUXmlParser.cpp', 'FCollada/FUtils/FUStringBuilder.hpp', 'FCollada/FUtils/FUFileManager.cpp', 'FCollada/FMath/FMArray.h', 'FCollada/FMath/FMTree.h', 'FCollada/FCDocument/FCDParameterAnimatable.cpp', 'FCollada/FCDocument/FCDGeometryPolygonsTools.cpp', 'FCollada/FCDocument/FCDLightTools.cpp', 'FCollada/FCDocument/FCDAnimationCurve.cpp', 'FCollada/FCDocument/FCDAnimationCurveTools.cpp', 'FCollada/FCDocument/FCDSkinController.cpp'],
         mech=[('text', 'FCollada/FUtils/'), ('document', 'FCollada/FCDocument/'), ('import', 'FColladaPlugins/FArchiveXML/')],
         technique='static analysis: path-sensitive walk of every way around every natural loop with value numbering and transitive write summaries (a way that leaves all the loop asks about unchanged is reported), and measure rules for counters and searches',
         note='''chains of references of the document (node trees, controllers on controllers) are taken to be acyclic; growth of the list that is walked is only seen in counted loops; floating-point steps too small to move are not judged'''),
    dict(id='P22', title='An object is only taken for a kind it is',
         statement='''Wherever an object known as one of a general kind is used as one of a special kind - an entity a reference or an instance points at, a transform, a key of an animation, a parameter or profile of an effect, what an importer or exporter is called with, what is to be cloned into - it is one of that kind: it was made as one, or it was asked and said so, whatever the document makes the reference point at. What an object answers when asked is true: it is of its own kind and of every kind above it, and of no other. What is made on request is of the kind that was asked for.''',
         over=['inputs', 'programs', 'histories'], quant='every cast to a derived kind in the library and the archive plug-in, every class that answers what it is, every routine that makes objects on request',
         why='A wrong cast reads and writes beyond the object or calls through the wrong table, and only for a document that instantiates something unexpected: a rigid body instance whose address is that of a light, a controller on top of nothing, an animation key of another interpolation.',
         files=['FCollada/FUtils/FUObjectType.cpp', 'FCollada/FUtils/FUObjectType.h', 'FCollada/FUtils/FUObject.h', 'FCollada/FCDocument/FCDocument.cpp', 'FCollada/FCDocument/FCDTransform.cpp', 'FCollada/FCDocument/FCDAnimationCurve.cpp', 'FCollada/FCDocument/FCDAnimationCurveTools.cpp', 'FCollada/FCDocument/FCDEffect.cpp', 'FCollada/FCDocument/FCDEffectTools.cpp', 'FCollada/FCDocument/FCDEffectParameterFactory.cpp', 'FCollada/FCDocument/FCDController.cpp', 'FCollada/FCDocument/FCDMaterialInstance.cpp', 'FCollada/FCDocument/FCDGeometrySpline.cpp', 'FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp', 'FCollada/FCDocument/FCDPhysicsModel.cpp', 'FColladaPlugins/FArchiveXML/FAXImportLinking.cpp', 'FColladaPlugins/FArchiveXML/FArchiveXML.cpp'],
         mech=[('kinds', 'FCollada/FUtils/'), ('document', 'FCollada/FCDocument/'), ('import and export', 'FColladaPlugins/FArchiveXML/')],
         technique='static analysis: forward dataflow of the classes each expression may be of (narrowed by type tests, tags and discriminating members; interprocedural through returns, arguments, members and dispatch tables) decides every downcast; the answers of the run-time types and the products of factories are compared with the class hierarchy',
         note='''casts from the root classes of the hierarchy (FUObject and FUTrackable as such) and from untyped pointers are not obligations; a parameter nobody asks is what the callers in the library hand in'''),
]
