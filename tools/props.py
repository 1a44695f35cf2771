prop('C01', 'Scene graphs survive an archive round trip',
 'Saving a document and loading the file back yields the same scene graph: the same nodes with the same ids, names, sub-ids, joint flag, parents, order of the children they own, multiple-parent instancing and chosen current scene, each with the same ordered transforms and the same entity instances. Values come back within the precision of the textual format, and loading reports no error.',
 ['inputs'], 'every valid scene graph that can be built through the API',
 'The suite round-trips one hand-written scene of a handful of nodes; transform order, sub-ids, instancing and nesting combine without bound.',
 [P+'FAXSceneExport.cpp', P+'FAXSceneImport.cpp', P+'FAXInstanceExport.cpp', P+'FAXInstanceImport.cpp', D+'FCDSceneNode.cpp', D+'FCDTransform.cpp'],
 [('node writer', P+'FAXSceneExport.cpp'), ('node reader', P+'FAXSceneImport.cpp'), ('instance reader and writer', P+'FAXInstanceImport.cpp')],
 'generated documents, save/load round trip')
prop('C02', 'Geometry survives an archive round trip',
 'Saving and loading a document preserves every geometry: for meshes the sources with their type, stride and data, the polygon sets with their primitive type, material symbol, inputs, sets, indices, face counts and holes, and the per-vertex inputs; for splines the type, closed flag, degree, control points, knots and weights. The reloaded object reports the same derived counts (faces, holes, face-vertices, offsets) as the original.',
 ['inputs'], 'every consistent mesh or spline that can be built through the API',
 'The suite round-trips one cube-like mesh and one spline of each kind; sharing of index streams, several sets per semantic, holes, strips, fans, lines and points are not exercised together.',
 [P+'FAXGeometryExport.cpp', P+'FAXGeometryImport.cpp', D+'FCDGeometryMesh.cpp', D+'FCDGeometryPolygons.cpp', D+'FCDGeometryPolygonsInput.cpp', D+'FCDGeometrySource.cpp', D+'FCDGeometrySpline.cpp'],
 [('mesh writer', P+'FAXGeometryExport.cpp'), ('mesh reader', P+'FAXGeometryImport.cpp'), ('count recomputation', D+'FCDGeometryPolygons.cpp')],
 'generated documents, save/load round trip')
prop('C03', 'Materials, effects, images and textures survive an archive round trip',
 'Saving and loading a document preserves its images, effects and materials: image file references, every profile and technique, standard shading parameters and colours with their transparency mode, textures per channel with image, set and UV binding, sampler and surface parameters, effect parameters with their type, annotation, semantic and value, and material overrides and technique hints. The reloaded references resolve to the reloaded objects.',
 ['inputs'], 'every valid combination of images, effects and materials that can be built through the API',
 'The suite round-trips one effect per profile with fixed values.',
 [P+'FAXMaterialExport.cpp', P+'FAXMaterialImport.cpp', D+'FCDEffect.cpp', D+'FCDEffectStandard.cpp', D+'FCDEffectParameter.cpp', D+'FCDTexture.cpp', D+'FCDMaterial.cpp', D+'FCDImage.cpp'],
 [('material writer', P+'FAXMaterialExport.cpp'), ('material reader', P+'FAXMaterialImport.cpp')],
 'generated documents, save/load round trip')
prop('C04', 'Skin and morph controllers survive an archive round trip',
 'Saving and loading a document preserves its controllers: for skins the target, bind-shape transform, joints in order with their inverse bind poses and, per vertex, the joint and weight pairs; for morphs the base target, method and each target with its weight; for instances the skeleton roots and joint bindings. Every reloaded reference resolves to the reloaded object.',
 ['inputs'], 'every valid skin or morph controller',
 'The suite round-trips one skin and one morph with fixed weights.',
 [P+'FAXControllerExport.cpp', P+'FAXControllerImport.cpp', D+'FCDSkinController.cpp', D+'FCDMorphController.cpp', D+'FCDControllerInstance.cpp'],
 [('controller writer', P+'FAXControllerExport.cpp'), ('controller reader', P+'FAXControllerImport.cpp')],
 'generated documents, save/load round trip')
prop('C05', 'Animations survive an archive round trip',
 'Saving and loading a document preserves its animations: each animated value keeps the same curves on the same components, with the same keys, outputs, interpolations, tangents, tension parameters, infinity modes and drivers, and animation clips keep their names, ranges and curves. Values come back within the precision of the textual format.',
 ['inputs'], 'every valid set of curves attached to animatable values',
 'The suite checks one curve per kind at a few fixed keys.',
 [P+'FAXAnimationExport.cpp', P+'FAXAnimationImport.cpp', D+'FCDAnimated.cpp', D+'FCDAnimationChannel.cpp', D+'FCDAnimationCurve.cpp', D+'FCDAnimationClip.cpp'],
 [('animation writer', P+'FAXAnimationExport.cpp'), ('animation reader and channel linker', P+'FAXAnimationImport.cpp')],
 'generated documents, save/load round trip')
prop('C06', 'Cameras, lights and other entities survive an archive round trip',
 'Saving and loading a document preserves every camera and light with its kind, all optional and extended parameters, and projection values, as well as force fields and emitters with their identity. A parameter that was not set is still not set after loading.',
 ['inputs'], 'every camera or light that can be built through the API',
 'The suite round-trips one light of each kind and one camera with fixed values.',
 [P+'FAXCameraExport.cpp', P+'FAXCameraImport.cpp', P+'FAXLightExport.cpp', P+'FAXLightImport.cpp', D+'FCDCamera.cpp', D+'FCDLight.cpp'],
 [('camera writer and reader', P+'FAXCameraImport.cpp'), ('light writer and reader', P+'FAXLightImport.cpp')],
 'generated documents, save/load round trip')
prop('C07', 'Physics content survives an archive round trip',
 'Saving and loading a document preserves its physics materials, models, scenes, rigid bodies, shapes, analytical geometry, rigid constraints and their instances with all parameters. Reloaded references resolve to the reloaded bodies, nodes, materials and models.',
 ['inputs'], 'every valid physics setup that can be built through the API',
 'The suite round-trips one fixed physics scene.',
 [P+'FAXPhysicsExport.cpp', P+'FAXPhysicsImport.cpp', D+'FCDPhysicsModel.cpp', D+'FCDPhysicsRigidBody.cpp', D+'FCDPhysicsShape.cpp', D+'FCDPhysicsScene.cpp'],
 [('physics writer', P+'FAXPhysicsExport.cpp'), ('physics reader', P+'FAXPhysicsImport.cpp')],
 'generated documents, save/load round trip')
prop('C08', 'Asset data, extra trees, notes and user text survive an archive round trip',
 'Saving and loading a document preserves asset information and contributors, user extra trees of any shape with their profiles, element names, attributes and text, entity notes and user properties, and names. Any printable text placed in a value comes back unchanged, whatever markup or escape characters it contains.',
 ['inputs'], 'every asset block, extra tree and text value',
 'The suite round-trips one asset block and one three-level extra tree of plain words.',
 [P+'FAXEntityExport.cpp', P+'FAXEntityImport.cpp', D+'FCDExtra.cpp', D+'FCDAsset.cpp', D+'FCDEntity.cpp', U+'FUXmlWriter.cpp', U+'FUXmlParser.cpp'],
 [('extra writer and reader', P+'FAXEntityExport.cpp'), ('text escaping', U+'FUXmlWriter.cpp')],
 'generated documents, save/load round trip')
prop('C09', 'Loading any input is safe and leaves the library usable',
 'Loading any byte sequence as a COLLADA document terminates without crashing, hanging or touching memory outside what it owns, returning either a document that can be inspected, saved and released or a reported failure; what indexes the joints or weights of a skin out of range is reported, and none of it is kept. After any such load the library still loads and saves a correct document normally.',
 ['inputs', 'fault_sequences'], 'every byte sequence, in particular near-valid documents with missing, duplicated, truncated, retyped or dangling parts',
 'The suite loads only well-formed files it wrote itself.',
 [P+'FArchiveXML.cpp', P+'FAXGeometryImport.cpp', P+'FAXControllerImport.cpp', P+'FAXAnimationImport.cpp', U+'FUXmlDocument.cpp', P+'FAXColladaParser.cpp'],
 [('document loader', P+'FArchiveXML.cpp'), ('source readers', P+'FAXColladaParser.cpp')],
 'structure-aware mutation fuzzing under sanitizers')
prop('C10', 'Re-archiving a loaded document is stable',
 'Once a document has been loaded from a file, saving it, loading the result and saving again produces the same file content, so no number of load and save cycles alters or accumulates data. Saving does not modify the document being saved.',
 ['inputs', 'histories'], 'every loadable document and any number of save and load cycles',
 'The suite saves and reloads once and compares a few members.',
 [P+'FArchiveXML.cpp', D+'FCDocument.cpp'],
 [('exporter', P+'FArchiveXML.cpp'), ('importer', P+'FArchiveXML.cpp')],
 'generated documents, metamorphic save/load fixpoint')
prop('C11', 'Ids and names handed out are unique and findable',
 'At every point of any history of creating, renaming, cloning and releasing objects in a document, no two live identified objects share an id, every id is a valid XML identifier, an object keeps its id until it is renamed, and looking an object up by its id finds that object; a sub-id given to a node is one that no node above or below it has. A unique name requested from a name table is never one that is already registered, and a released name can be used again.',
 ['histories'], 'every sequence of creations, renamings, clones and releases',
 'The suite inserts a few fixed names.',
 [D+'FCDObjectWithId.cpp', U+'FUUniqueStringMap.cpp', D+'FCDocument.cpp', D+'FCDLibrary.h'],
 [('unique name table', U+'FUUniqueStringMap.cpp'), ('id registration', D+'FCDObjectWithId.cpp')],
 'model-based stateful testing')
prop('C12', 'Tracked references and events never dangle or leak',
 'Under any history of creating, sharing, reassigning, copying and releasing tracked objects, a tracking reference or list shows exactly the objects that are still alive, an owned object is destroyed exactly once when its owner lets go of it, and no reference ever leads to a destroyed object. An event calls exactly the handlers currently registered, once each, in reverse order of registration.',
 ['histories'], 'every sequence of operations over the tracking and event primitives',
 'The suite checks a few fixed creation and release orders.',
 [U+'FUObject.h', U+'FUTracker.h', U+'FUEvent.h', U+'FUObject.cpp', U+'FUTracker.cpp'],
 [('tracker notification', U+'FUTracker.cpp'), ('ownership release', U+'FUObject.cpp')],
 'model-based stateful testing')
prop('C13', 'Documents can be edited and torn down in any order',
 'Any history of creating, linking, cloning, detaching and releasing the objects of a document keeps every remaining reference valid and every library count equal to the number of its live entities. Releasing the document afterwards, in any order relative to other documents, destroys each of its objects exactly once and returns all their memory.',
 ['histories'], 'every sequence of edits and releases over one or more documents',
 'The suite releases documents in one order, and its XRef tests fix a few more.',
 [D+'FCDocument.cpp', D+'FCDEntity.cpp', D+'FCDSceneNode.cpp', D+'FCDEntityInstance.cpp', U+'FUObject.cpp'],
 [('containers and trackers', U+'FUObject.h'), ('document destruction', D+'FCDocument.cpp')],
 'model-based stateful testing under AddressSanitizer')
prop('C14', 'Containers, strings, maps and sorting behave like their models',
 'After any sequence of operations, the dynamic array, pointer array, string, ordered map and tree types hold exactly the elements a reference container would hold, in the same order, with every element constructed and destroyed exactly once. Sorting returns an ordered permutation of its input.',
 ['histories', 'inputs'], 'every sequence of container operations and every input array',
 'The suite exercises each container with one or two fixed scripts.',
 [M+'FMArray.h', M+'FMArrayPointer.h', M+'FMTree.h', M+'FMSort.h', U+'FUString.h'],
 [('array storage', M+'FMArray.h'), ('AVL tree', M+'FMTree.h'), ('string', U+'FUString.h')],
 'model-based stateful testing against std containers')
prop('C15', 'Text conversions parse what they print and agree with a reference',
 'Every integer, boolean, floating-point number, vector, matrix, list and date converted to text and parsed back gives the same value within the printed precision, and parsing accepts any decimal spelling of a number and any white space between list items. Parsing any text is bounded by the text: exactly the items present are returned, and the string builder produces exactly the concatenation of what was appended.',
 ['inputs'], 'every value and every text',
 'The suite converts a few dozen literals.',
 [U+'FUStringConversion.cpp', U+'FUStringConversion.hpp', U+'FUStringBuilder.hpp', U+'FUDateTime.cpp'],
 [('number parser', U+'FUStringConversion.hpp'), ('string builder', U+'FUStringBuilder.hpp')],
 'generated inputs, round trip and differential against strtod and snprintf')
prop('C16', 'URIs and file paths resolve consistently',
 'Parsing a URI yields its scheme, user, host, port, path, query and fragment, and printing it gives the same text back. Resolving a relative reference against a base follows its dot segments, and making the URI of a file relative to a base and resolving it against that base gives back the original. Path helpers split a file name of any length into the same folder and extension as written, and popping a current folder restores the one before it.',
 ['inputs'], 'every URI, path and base',
 'The suite resolves a fixed table of URIs.',
 [U+'FUUri.cpp', U+'FUFileManager.cpp'],
 [('URI resolution', U+'FUUri.cpp'), ('path helpers', U+'FUFileManager.cpp')],
 'generated inputs, reference resolver and inverse relations')
prop('C17', 'Matrix, vector and quaternion algebra obeys its laws',
 'For every finite matrix, multiplication, transposition, inversion, determinant, point and vector transforms and vector products agree with a double-precision reference, and an invertible matrix times its inverse is the identity. Composing a matrix from scale, rotation and translation and decomposing it again reproduces the same transform, and quaternion, Euler-angle, axis-angle and matrix forms of a rotation agree.',
 ['inputs'], 'every finite, well-conditioned argument',
 'The suite checks a few fixed matrices.',
 [M+'FMMatrix44.cpp', M+'FMMatrix33.cpp', M+'FMQuaternion.cpp', M+'FMVector3.cpp', M+'FMAngleAxis.cpp'],
 [('matrix routines', M+'FMMatrix44.cpp'), ('quaternion routines', M+'FMQuaternion.cpp')],
 'generated inputs against a double-precision reference')
prop('C18', 'Bounding volumes always contain what they bound',
 'After any sequence of including points, boxes and spheres, a bounding box or sphere contains everything it was given, and a volume transformed without skew (a box: by any affine transform) contains the transformed contents. Overlap and containment answers are consistent with points actually shared by the volumes, and a box is the smallest axis-aligned box with that property.',
 ['inputs', 'histories'], 'every finite set of points, volumes and transforms',
 'The suite checks a few fixed overlap cases.',
 [U+'FUBoundingBox.cpp', U+'FUBoundingSphere.cpp'],
 [('box', U+'FUBoundingBox.cpp'), ('sphere', U+'FUBoundingSphere.cpp')],
 'generated inputs, geometric oracle')
prop('C19', 'Polygon tools preserve the mesh they transform',
 'Triangulation, unique-index generation and index-buffer fitting keep every polygon set describing the same surface with the same attributes: triangulated faces have three vertices and cover the original face-vertices in order, every original face-vertex still yields the same attribute values, animated ones at every time, the maps of moved indices say exactly where each value went, and split buffers respect the requested limit (a single larger face aside) without losing or repeating faces or holes. Packing vertices, and moving skin influences or another mesh along a map, gives each new vertex the data of the vertex it came from. Removing or adding a face, or releasing an input, a source or a set, leaves the other faces and attributes as they were. Generated tangents and binormals are finite, of unit length, one per face-vertex, and follow the texture.',
 ['inputs', 'histories'], 'every consistent mesh and every sequence of tools and edits',
 'The suite uses one or two fixed meshes.',
 [D+'FCDGeometryPolygonsTools.cpp', D+'FCDGeometryPolygons.cpp', D+'FCDGeometryPolygonsInput.cpp', D+'FCDControllerTools.cpp'],
 [('polygon tools', D+'FCDGeometryPolygonsTools.cpp')],
 'generated meshes, metamorphic comparison of face-vertex attributes')
prop('C20', 'Animation curves evaluate as their keys prescribe',
 'Evaluating a curve at a key returns its output, between keys a step, linear, Bezier or TCB segment follows its own interpolation rule and depends only on the two bounding keys and their tangents, and outside the keys the pre- and post-infinity modes apply as documented. Inserting, deleting or converting keys and components keeps the keys ordered and leaves the values elsewhere unchanged, and evaluation is total for every time.',
 ['inputs', 'histories'], 'every curve, key sequence and evaluation time',
 'The suite samples two or three curves.',
 [D+'FCDAnimationCurve.cpp', D+'FCDAnimationKey.cpp', D+'FCDAnimationMultiCurve.cpp', D+'FCDAnimationCurveTools.cpp'],
 [('evaluation', D+'FCDAnimationCurve.cpp')],
 'generated curves against a reference evaluator')
prop('C21', 'Reducing skin influences keeps the significant weights',
 'Reducing the influences of a skin to a limit leaves at most that many joints per vertex, drops every weight below the threshold, keeps the largest of the others in their proportions, and leaves them with the total weight the vertex had (one, for a normalised skin). Vertices that lose nothing and all joints with their bind poses stay as they were, and a vertex keeps at least one influence when one reaches the threshold and the limit is not zero.',
 ['inputs'], 'every skin, count and threshold',
 'The suite reduces three fixed skins.',
 [D+'FCDSkinController.cpp', D+'FCDControllerTools.cpp'],
 [('influence reduction', D+'FCDSkinController.cpp')],
 'generated skins against a reference reduction')
prop('C22', 'A clone equals its original and is independent of it',
 'Cloning any entity of the libraries (cameras, lights, force fields, emitters, images, effects, materials, geometries, controllers, scene nodes with their children, animation trees, physics materials, models and scenes), into a new entity of the same document, of another document or of no library, produces an object whose archived content equals that of the original (static values, transforms, instances, inputs, surfaces and samplers, own materials, references to the same other entities or to the cloned counterparts), apart from its id, which is unique in its document; the scene nodes that rigid bodies move are left unset by design. Cloning leaves the original and every other entity unchanged. Later changes to or release of the clone do not affect the original, and later changes to or release of the original do not affect the content of the clone that is its own (curves attached to animatable values are shared by design and not part of this property).',
 ['inputs', 'histories'], 'every entity and every later edit',
 'The suite clones a few fixed objects and images.',
 [D+'FCDEntity.cpp', D+'FCDGeometryMesh.cpp', D+'FCDSceneNode.cpp', D+'FCDEffect.cpp', D+'FCDAnimated.cpp'],
 [('Clone of every entity', D+'FCDEntity.cpp')],
 'generated entities, metamorphic comparison of archives')
prop('C23', 'External references stay consistent under any open and close order',
 'In any history of saving, opening, editing (renaming included), dereferencing and releasing documents that reference each other, cyclic references included, each reference resolves to the right entity of the right document when it is open and to nothing otherwise, and each target file is loaded at most once. No order of releases crashes or leaves a reference to a released object.',
 ['histories'], 'every graph of documents and every order of operations',
 'The suite has three fixed two- and three-file histories.',
 [D+'FCDExternalReferenceManager.cpp', D+'FCDPlaceHolder.cpp', D+'FCDEntityReference.cpp', 'FCollada/FCollada.cpp'],
 [('placeholders', D+'FCDPlaceHolder.cpp'), ('entity references', D+'FCDEntityReference.cpp')],
 'model-based stateful testing with real files in a scratch directory')
prop('C24', 'Scene-graph operations keep a consistent acyclic graph',
 'Under any history of adding, moving, instancing and releasing nodes, parents and children always agree, linking a node below one of its descendants is refused, a node dies exactly when it is released or loses its last parent to a release, and traversal visits each descendant, instanced nodes included, exactly once per path in the chosen order. A node is a target exactly while a camera or light aims at it. A node\'s local transform is the product of its transforms in order, each as COLLADA defines it, and its world transform is the product along its parents.',
 ['histories', 'inputs'], 'every sequence of graph edits and every transform stack',
 'The suite iterates two or three fixed hierarchies.',
 [D+'FCDSceneNode.cpp', D+'FCDTransform.cpp', D+'FCDSceneNodeIterator.cpp', D+'FCDSceneNodeTools.cpp'],
 [('graph edits', D+'FCDSceneNode.cpp'), ('transforms', D+'FCDTransform.cpp')],
 'model-based stateful testing with a reference graph')
prop('C25', 'Animated parameters track their curves and their lists',
 'Under any history of edits to an animatable parameter or list of parameters, each curve stays attached to the element and component it animates, shifting with insertions and removals, and setting the current time writes exactly the evaluated curve values into the animated components and nothing else. Sampling the animation of a node yields its transform at every key time of its curves, with no rotation of more than half a turn in between.',
 ['histories'], 'every sequence of parameter edits and evaluation times',
 'The suite has a few fixed insertions and removals.',
 [D+'FCDParameterAnimatable.cpp', D+'FCDAnimated.cpp', D+'FCDocument.cpp', D+'FCDSceneNodeTools.cpp'],
 [('list adjustment', D+'FCDParameterAnimatable.cpp')],
 'model-based stateful testing')
prop('C26', 'Standardising axis and unit preserves the scene up to that change',
 'Converting a document to another up-axis and unit length maps every world-space position and direction of its scenes (nodes, meshes, splines, skins, and the clip planes and aim of cameras, lights, force fields and emitters), at every time, exactly as the change of axis and scale prescribes, each entity starting from the axis and unit that apply to it, each converted once, and the documents it refers to likewise. Converting to the current axis and unit changes nothing, and converting back restores the scene.',
 ['inputs'], 'every document, source and target axis, and unit',
 'The suite does not test it.',
 [D+'FCDocumentTools.cpp'],
 [('conversion functor', D+'FCDocumentTools.cpp')],
 'generated documents, metamorphic relation')
prop('C27', 'Checksums, base64 and enumeration names are exact codecs',
 'Base64 decoding inverts encoding for every byte string, ignoring characters outside its alphabet, and stops safely on any other text. Checksums equal the standard CRC-32, every enumeration value the format defines maps to a name that maps back to it, and other names map to the unknown (or documented default) value.',
 ['inputs'], 'every byte string and every enumeration value',
 'The suite checks single literals.',
 [U+'FUBase64.cpp', U+'FUCrc32.cpp', U+'FUDaeEnum.cpp', U+'FUDaeEnumSyntax.h'],
 [('codec', U+'FUBase64.cpp'), ('tables', U+'FUDaeEnum.cpp')],
 'generated inputs, inverse and reference implementation')
prop('C28', 'XML written by the library reads back as the same tree',
 'Any tree of elements, attributes and text built with the XML writing helpers and serialised is well-formed XML that parses back to the same tree, and lookup helpers find exactly the children and attributes that are present, in order. Typed sources written by the archive helpers read back as the same lists, and every sub-id handed out is unique in its scope.',
 ['inputs'], 'every element tree',
 'The suite has no test of the XML layer on its own.',
 [U+'FUXmlWriter.cpp', U+'FUXmlParser.cpp', U+'FUXmlDocument.cpp', P+'FAXColladaWriter.cpp', P+'FAXColladaParser.cpp'],
 [('writer', U+'FUXmlWriter.cpp'), ('parser', U+'FUXmlParser.cpp')],
 'generated trees, round trip and reference lookup')
prop('C29', 'What is loaded depends on the content of a document, not on its spelling',
 'Two documents that differ only in what XML and COLLADA give no meaning to (order of attributes, white space between elements and between the items of lists, comments, processing instructions, CDATA sections, character references, encoding, namespace prefix, spelling of numbers and booleans, omission of what has its default value, order of the libraries and of the entities in them, a library in one or several parts, which column of the indices each input of a mesh or a skin takes, the ids of arrays and samplers, references with or without the document\'s own file name) load into the same document, without errors, from a file or from memory, whatever was loaded before.',
 ['inputs', 'histories'], 'every document and every equivalent spelling of it',
 'The tests load documents written by the library or a few fixed samples.',
 [U+'FUXmlDocument.cpp', U+'FUXmlParser.cpp', U+'FUStringConversion.hpp', P+'FAXColladaParser.cpp', P+'FArchiveXML.cpp', P+'FAXPhysicsImport.cpp', P+'FAXSceneImport.cpp'],
 [('parsing into a tree', U+'FUXmlDocument.cpp'), ('order of the libraries', P+'FArchiveXML.cpp'), ('numbers', U+'FUStringConversion.hpp')],
 'generated documents, metamorphic relation')
prop('C30', 'Effect parameters are found and overridden level by level',
 'At every point of any history of adding, changing and releasing effect parameters, textures, techniques, profiles and bindings, a search by semantic or by reference from a geometry instance, material instance, material, effect, profile or technique gives the first match on the way down (instance, material, effect, profiles in order, their techniques or texture sets), or every match exactly once in that order, and with localOnly only the matches of that level. A standard parameter that refers to a named parameter has the value, static or animated, of the first level that defines it (none, if that one is of another type), its own if no level does; synchronising an instance gives its parameters the values of the material, effect or profile they stand for, in that order, and changes nothing else.',
 ['inputs', 'histories'], 'every arrangement of effect parameters over the levels of materials and every sequence of edits',
 'The suite resolves a handful of parameters of one imported material.',
 [D+'FCDEffectTools.cpp', D+'FCDEffectParameter.cpp', D+'FCDEffectStandard.cpp', D+'FCDMaterial.cpp', D+'FCDMaterialInstance.cpp', D+'FCDGeometryInstance.cpp'],
 [('searches and resolution', D+'FCDEffectTools.cpp'), ('standard parameters by semantic', D+'FCDEffectStandard.cpp')],
 'model-based stateful testing')
prop('C31', 'Reports reach every listener of their level, and logs keep every line',
 'A report is handed, with its level, code and line, to every callback registered for its level at that moment, exactly once, the latest first, and to nobody that has been removed. A simple handler that existed throughout holds one line for each report, of any level, and is unsuccessful exactly when one reached its own level, whatever the global one; an error log holds one line for each report of at least its level, unaltered whatever the text contains and however long it is, in order with the lines an application adds, and counts the new ones since it was last asked. The same holds when several threads report and register at once: no report is lost, repeated, mixed with another or reordered within its thread. What is written to a file through FUFile is what is read from it.',
 ['inputs', 'schedules', 'histories'], 'every history of registrations, reports and texts, from one or several threads',
 'The suite only asks one handler whether a load succeeded.',
 [U+'FUError.cpp', U+'FUErrorLog.cpp', U+'FULogFile.cpp', U+'FUFile.cpp', U+'FUEvent.h', U+'FUStringBuilder.hpp'],
 [('dispatch', U+'FUError.cpp'), ('error logs', U+'FUErrorLog.cpp'), ('log files', U+'FULogFile.cpp'), ('files', U+'FUFile.cpp')],
 'model-based stateful testing, threads')
prop('C32', 'Physics shapes know their volume, and masses follow from it',
 'The volume of a box, sphere, cylinder, capsule, tapered cylinder or tapered capsule of any dimensions, round or elliptical, is that of the solid; it grows with the cube of a scale and does not depend on which end is which. A shape that uses a mesh, directly or as the convex hull of one named by id or URL, has the volume of the box around all positions of that mesh, zero without any; planes, splines and hulls of nothing count as 1. In a loaded document a shape without a mass has its density times its volume, one without a density its mass over its volume, one without either the density 1; a rigid body without a mass has the sum of its shapes, and without an inertia that of a sphere of its volume and mass. What an instance of a rigid body does not give (mass, inertia, mass frame, dynamic) is that of the body, and what it gives is its own.',
 ['inputs'], 'every set of shapes, dimensions and given or missing values',
 'The suite never asks for a volume and gives every mass.',
 [D+'FCDPhysicsShape.cpp', D+'FCDPhysicsAnalyticalGeometry.cpp', D+'FCDPhysicsRigidBodyParameters.cpp', D+'FCDGeometryMesh.cpp', 'FCollada/FMath/FMVolume.cpp', P+'FAXPhysicsImport.cpp'],
 [('volumes', 'FCollada/FMath/FMVolume.cpp'), ('volumes of shapes', D+'FCDPhysicsShape.cpp'), ('masses of loaded shapes, bodies and instances', P+'FAXPhysicsImport.cpp')],
 'generated solids and documents against numerical integration')
prop('C33', 'Animation clips reposition their curves as a whole',
 'A curve and the clips that use it know each other exactly once, until one of them is released. Making a clip current on a curve moves the whole curve, keys and tangents, from wherever it was to the offset of that clip, so that it evaluates to the same values at the moved times; a clip that does not use the curve, or none, moves nothing. A clip that is put on a curve moves it to start at zero, and resetting the times of the clips makes each start at the given time, with its length, when it is next made current. Clones of curves and clips have the keys, the position and the offsets of their originals, each other instead of the originals, and move independently. A clip keeps the animations that it instantiates, in order and with their names, through a file; a clip that is loaded has exactly the curves of those animations and of their children, and instantiates the animations of curves that nothing it instantiates covers.',
 ['histories', 'instances'], 'every history of clips added, made current, reset, cloned and released on curves of every kind',
 'The suite never makes a clip current.',
 [D+'FCDAnimationCurve.cpp', D+'FCDAnimationClip.cpp', D+'FCDAnimationClipTools.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp', 'FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp'],
 [('moving curves and cloning them', D+'FCDAnimationCurve.cpp'), ('clips', D+'FCDAnimationClip.cpp'), ('resetting times', D+'FCDAnimationClipTools.cpp')],
 'model-based stateful testing')

prop('C34', 'Plug-ins get the files and extra techniques that are theirs', 
 'A file that is loaded, from disk or from memory, or saved goes to exactly one archive plug-in: the first, in the order of registration, that has the extension of the file name, whatever its case; its answer is the answer of the call, and a name without a known extension fails with an error. Extra techniques of the profile of a registered plug-in are handed to that plug-in once each, when a document is loaded, with the object that owns the extra tree; the object it returns takes the place of the tree, and is handed back once, with the technique empty, whenever the document is saved, so that the tree survives; techniques of other profiles, and those the plug-in refuses, stay as they are. Saving leaves the document as it was, and a plug-in object is released with its technique. A load that is told to cancel from any point on where the library asks does not succeed, and later loads of the same file are complete.',
 ['files', 'techniques', 'cancelled'], 'every history of plug-ins and file names, every arrangement of techniques over a document, every point of cancellation',
 'The suite registers no plug-in and cancels no load.',
 ['FCollada/FColladaPlugin.cpp', 'FCollada/FCollada.cpp', D+'FCDExtra.cpp'],
 [('finding the archive plug-in', 'FCollada/FColladaPlugin.cpp'), ('techniques of plug-ins', 'FCollada/FColladaPlugin.cpp'), ('cancelling', 'FColladaPlugins/FArchiveXML/FArchiveXML.cpp')],
 'model-based stateful testing')
