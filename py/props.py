import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
     "why_tests_cant":why,"anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}})
p("C01","Parsing never crashes, hangs or overflows the stack",
 "For every byte stream and every error mode, parsing terminates and returns control to the caller: it never panics and never recurses or loops without bound, not even on malformed attribute values, unbalanced documents or definitions that reference themselves. Whenever no error is returned the document is non-nil, and a stream without any element is reported as an error.",
 ["inputs","configurations"],"all byte streams (well-formed or not) x all three error modes",
 "The tests parse 26 fixed well-formed icons and one non-XML string; none contains an empty colour, a short hex colour, a self-referencing use or a nested definition.",
 ["svg.go","parse.go","parse_path.go","patterns.go","svg_elements.go","units.go"],
 [("event loop and style stack push/pop","svg.go Parse"),("attribute readers","parse.go, svg_elements.go, patterns.go"),("definition expansion","svg_elements.go useF")],
 ["svg.Parse return values, panics and termination"])
p("C02","A path's style is exactly the cascade of its ancestors",
 "The style attached to every drawn path is the documented default style overlaid with the presentation attributes and inline style declarations of each of its ancestors, outermost first, and finally its own; within one element inline style declarations win over presentation attributes, an inner value replaces an inherited one, a dash list of odd length is repeated once, 'none' clears it, and the three opacity properties multiply along the chain. Elements that are not its ancestors (closed groups, siblings, their descendants) never influence it, and the styles of different paths are independent of each other.",
 ["inputs","histories"],"all element trees and all placements of style attributes (fill, stroke, fill-rule, opacities, width, cap, join, gap, miter limit, dash array/offset) on them",
 "The tests only check that parsing icons returns no error; no test looks at a style.",
 ["parse.go","svg.go","types.go"],[("style stack","parse.go pushStyle / svg.go Parse EndElement"),("attribute interpretation","parse.go readStyleAttr")],
 ["Svg.SvgPaths[i].Style, SvgMask.SvgPaths[i].Style"],[{"name":"styleStack","meaning":"one style per open element","where":"parse.go"}])
p("C03","Path commands compile to the operations SVG assigns them",
 "For every path data string that begins with a moveto and uses M L H V C S Q T Z in absolute or relative form with any number of repeated argument groups, the drawn path is exactly the sequence of moveto, lineto, quadratic, cubic and close operations that SVG assigns to it: relative coordinates resolve against the current point, extra moveto groups are linetos, smooth control points reflect the previous one only after a curve of the same kind, and closing returns the current point to the subpath start so that a following drawing command begins a new subpath there. Coordinates are exact to 1/64 pixel, and an argument count that does not fit the command, or path data that does not begin with a moveto, is an error.",
 ["inputs","histories"],"all finite sequences of path commands with all argument values representable in 26.6 fixed point",
 "No test looks at a compiled path; meaning depends on the whole command history (pen, subpath start, last command, control point).",
 ["parse_path.go","path.go"],[("command state machine","parse_path.go addSeg"),("relative resolution","parse_path.go pointsToAbs, valsToAbs"),("control reflection","parse_path.go reflectControlQuad/Cube")],
 ["Svg.SvgPaths[i].Path"],[{"name":"pen, subpath start, last control point, last command","meaning":"state of the path interpreter","where":"parse_path.go pathCursor"}])
p("C04","Elliptical arcs follow the requested ellipse to the endpoint",
 "Every arc command (absolute or relative, including repeated argument groups) yields cubic segments that begin at the current point, end at the given endpoint, lie on the ellipse with the requested radii and x-axis rotation (radii scaled up just enough when too small, and taken by magnitude), and run along the one arc selected by the large-arc and sweep flags; the next command continues from that endpoint. A zero radius gives a straight line and coincident endpoints give no segment.",
 ["inputs"],"all arc arguments: radii, rotations, flags, endpoints, repeated groups, preceding pen positions",
 "No test inspects an arc; flags, rotation, scaling and repetition interact.",
 ["parse_path.go","shapes.go"],[("centre parameterisation","shapes.go findEllipseCenter"),("cubic approximation","shapes.go addArc"),("argument handling","parse_path.go addSeg 'a','A'")],
 ["Svg.SvgPaths[i].Path"])
p("C05","Basic shapes produce the outline their attributes describe",
 "A rect, circle, ellipse, line, polyline or polygon element yields one path with exactly the outline SVG defines for its attributes: rectangle corners and rounded corners (a missing radius equals the other one, radii limited to half the side), a closed ellipse around its centre, a segment, an open or a closed chain through all the points. Missing attributes count as zero, shapes with zero width, height or radius or with fewer than two points draw nothing, an odd number of coordinates is an error, and the result never depends on elements parsed earlier.",
 ["inputs","histories"],"all shape elements and attribute values, after any prefix of other elements",
 "No test looks at shape geometry; the parser reuses one cursor for all elements so outcomes can depend on history.",
 ["svg_elements.go","shapes.go"],[("shape functions","svg_elements.go rectF, circleF, lineF, polylineF, polygonF"),("outline generation","shapes.go addRect, addRoundRect, ellipse code")],
 ["Svg.SvgPaths[i].Path"])
p("C06","Numbers and lengths have their SVG value everywhere",
 "Every number in SVG syntax (optional sign, integer and/or fraction digits, optional exponent with e or E and a sign) denotes the same value in path data, point lists, the viewBox, transforms and attributes, and lists of numbers split exactly as the SVG grammar prescribes, with or without separators. A length converts to pixels at 96 dpi for px, in, cm, mm, Q, pt and pc, and a percentage refers to the viewBox width for horizontal, height for vertical, and normalised diagonal for other quantities.",
 ["inputs"],"all numerals and number lists of the SVG grammar; all units and percentages for all length attributes",
 "One test covers a handful of literals; the grammar's juxtapositions (1.5.5-3e-1) are combinatorial.",
 ["parse_path.go","units.go","svg_elements.go"],[("list splitting","parse_path.go getPoints, readFloat"),("units","units.go findUnit, resolveUnit")],
 ["Svg.ViewBox, path coordinates, Style.LineWidth, Style.Dash"])
p("C07","Nested transforms compose like SVG matrices",
 "The transform attached to every drawn path is the matrix product of the transform lists of its ancestors, outermost first, followed by its own, each list multiplied from left to right, so that the innermost rightmost function acts on the path's coordinates first; inside a mask element the chain starts at the mask, whose content stands in its own coordinate system. translate, scale, rotate (about the origin or a given centre), skewX, skewY and matrix have their SVG meaning including optional arguments and comma or blank separation; an unknown function or a wrong argument count is an error.",
 ["inputs"],"all element trees with all transform lists",
 "No test checks a transform; correctness is about products of arbitrary length.",
 ["parse.go","matrix.go"],[("transform list parsing","parse.go parseTransform, readTransformAttr"),("matrix product","matrix.go Mult")],
 ["Svg.SvgPaths[i].Style.Transform"])
p("C08","Colour syntax maps to the colour it names",
 "For fill, stroke and stop colours, every SVG colour keyword in any letter case, #rgb, #rrggbb and rgb() with three components, each an integer or an integer percentage (values outside the range clamped, percentages rounded either way), yields that opaque colour, and none yields no paint. A url reference to something that is not a known gradient paints opaque black, and any other text, including empty or truncated colours, is reported as an error.",
 ["inputs"],"all colour strings",
 "No test checks a colour value.",
 ["patterns.go","parse.go"],[("colour parser","patterns.go parseSVGColor, parseColorValue, parseSVGColorNum")],
 ["Style.FillerColor, Style.LinerColor, GradStop.StopColor"])
p("C09","use draws exactly the referenced definition",
 "A use of an element defined earlier in a defs section draws exactly what the referenced element and its descendants would draw if they stood inside a group carrying the use element's own attributes and translated by its x and y: every shape, in document order, each with its own style and transform. This holds for any nesting of groups and ids inside definitions, for definitions that contain further uses and for repeated uses; content of defs is drawn only through use, and nothing after the use is affected by it.",
 ["inputs","histories"],"all definition trees, id placements and sequences of use elements, in every error mode",
 "One icon contains a defs section and no test looks at what a use draws.",
 ["svg_elements.go","parse.go","svg.go"],[("definition recording","parse.go readStartElement, svg.go Parse"),("expansion","svg_elements.go useF")],
 ["Svg.SvgPaths"],[{"name":"recorded definitions","meaning":"flattened subtree per id","where":"parse.go definition"}])
p("C10","Gradients are captured as declared and bound at reference",
 "A fill or stroke that references a linear or radial gradient defined earlier carries a gradient with exactly the declared kind, coordinates (SVG defaults, percentages resolved against the unit box or, for userSpaceOnUse, the viewBox), gradient transform, spread method, units, and stops in order with their offset, colour and opacity. A stop without a colour takes the paint in force where the gradient is referenced, each reference is independent of the others, and gradient elements draw nothing themselves.",
 ["inputs","histories"],"all gradient declarations, placements (inside or outside defs, groups) and reference sequences",
 "Tests parse a few icons with gradients and inspect nothing.",
 ["patterns.go","svg_elements.go"],[("gradient elements","svg_elements.go linearGradientF, radialGradientF, stopF"),("reference binding","patterns.go readGradURL, localizeGradIfStopClrNil")],
 ["Style.FillerColor / LinerColor of gradient kind"])
p("C11","Mask content and mask references stay separate and scoped",
 "Everything drawn inside a mask element, and nothing else, is collected in order under that mask's id together with the mask's geometry, and is not drawn in the document, wherever the mask element stands. Every drawn path carries the mask references of its ancestors and itself, outermost first (mask=none adds none), and no element outside that chain ever changes that list.",
 ["inputs","histories"],"all element trees with mask elements and mask references at any depth",
 "One test counts masks of one file.",
 ["svg_elements.go","parse.go","svg.go"],[("mask collection","svg_elements.go maskF, parse.go readStartElement, svg.go Parse"),("mask references","parse.go readStyleAttr mask")],
 ["Svg.SvgMasks, Style.Masks"])
p("C12","Error modes differ only in how unsupported content is reported",
 "For every input the ignoring and the warning mode return the same document and the same success or failure, and the warning mode logs one line for each unsupported element, path command or keyword value it skips while the ignoring mode logs nothing. The strict mode returns an error if and only if the other modes fail or would have skipped something, and otherwise returns the same document; in every mode a malformed value of a supported attribute is an error, and a failing parse still returns everything drawn by the elements before the failing one.",
 ["inputs","configurations"],"all documents x all three modes",
 "Tests use one mode per file and compare nothing.",
 ["parse.go","parse_path.go","svg_elements.go","svg.go"],[("unsupported-content policy","parse.go handleError, readStartElement; parse_path.go addSeg; svg_elements.go useF")],
 ["Parse results, the standard logger's output"])
p("C13","Document metadata is reported as written",
 "The view box is the one declared on the outermost svg element, falling back to its width and height for a missing or zero extent, and the reported width and height are that element's attribute texts; nested svg elements do not change them. Titles and descriptions are the complete character data of each drawn-tree title and desc element, in document order and nothing else, whatever comments, CDATA sections, entities, character encodings or nested markup the text is split by.",
 ["inputs"],"all documents with title/desc/svg elements at any place",
 "No test reads the metadata.",
 ["svg.go","svg_elements.go"],[("svg element","svg_elements.go svgF"),("text collection","svg.go Parse CharData, svg_elements.go titleF, descF")],
 ["Svg.ViewBox, Width, Height, Titles, Descriptions"])
p("C14","Parsing is a pure function of the input bytes and the mode",
 "The document and error returned for an input depend only on its bytes and the error mode: not on how the reader splits the bytes, on documents parsed before, on parses running concurrently in any interleaving, or on what callers did to documents returned earlier, and reading from a file equals reading the same bytes. The default style and identity transform stay unchanged by any parse.",
 ["schedules","histories","inputs"],"all histories of parse calls, all interleavings of concurrent parses, all chunkings of the reader, mutation of earlier results",
 "Tests run one parse at a time and never compare two results.",
 ["svg.go","parse.go","types.go","svg_elements.go"],[("per-call cursor and document","svg.go Parse"),("shared tables and defaults","types.go DefaultStyle, svg_elements.go drawFuncs, matrix.go Identity")],
 ["results of concurrent and repeated svg.Parse/ParseFile"])
p("C15","The target option maps the view box onto the target rectangle",
 "When a target rectangle is given, every back end maps each path point, after the path's own transform, so that the corners of the view box land on the corners of the rectangle; without a target coordinates are unchanged. The opacity option multiplies into the opacity of every fill and stroke, and the order in which options are given does not matter.",
 ["inputs","configurations"],"all view boxes (any origin), target rectangles, path transforms, opacities and option orders, on every back end",
 "There is no renderer test.",
 ["renderer/options.go","renderer/draw2d/draw.go","renderer/gg/draw.go","renderer/rasterx/draw.go","matrix.go"],[("viewport matrix","renderer/options.go Target"),("composition","drawTransformed of each back end")],
 ["renderer.Options, drawn coordinates on each back end"])
p("C16","The draw2d back end paints every path faithfully and independently",
 "Drawing paints every path of the document once, in document order, fill before stroke, each with all of its subpaths (open ones stay open when stroked) and with that path's fill rule, colours times opacities, line width and dash pattern scaled like the drawing, cap, join and dash offset. A path with neither fill nor stroke paints nothing, and no path's geometry or style affects another path.",
 ["inputs","histories"],"all sequences of styled paths, including invisible ones and multi-subpath ones",
 "There is no renderer test.",
 ["renderer/draw2d/draw.go"],[("path replay and paint selection","renderer/draw2d/draw.go drawTransformed, drawTo")],
 ["calls on the draw2d.GraphicContext; pixels"])
p("C17","The rasterx back end paints every path faithfully and independently",
 "Drawing paints every path of the document once, in document order, fill before stroke, each with all of its subpaths (open ones stay open when stroked) and with that path's fill rule, colours or gradients times opacities, line width and dash pattern scaled like the drawing, caps, join, gap, miter limit and dash offset. A path with neither fill nor stroke paints nothing, and no path's geometry or style affects another path.",
 ["inputs","histories"],"all sequences of styled paths, including gradients, invisible ones and multi-subpath ones",
 "There is no renderer test.",
 ["renderer/rasterx/draw.go"],[("path replay and paint selection","renderer/rasterx/draw.go drawTransformed"),("gradient conversion","renderer/rasterx/draw.go toRasterxGradient")],
 ["calls on the rasterx.Scanner; pixels"])
p("C18","The gg back end paints every path faithfully, independently and masked",
 "Drawing paints every path of the document once, in document order, fill before stroke, each with all of its subpaths (open ones stay open when stroked) and with that path's fill rule, colours times opacities, line width and dash pattern scaled like the drawing, cap, join and dash offset. A path whose innermost mask reference names a mask of the document shows only where that mask's content, drawn in the path's coordinate system, is painted, other paths are unaffected by masks, a path with neither fill nor stroke paints nothing, and drawing terminates even when masks reference each other.",
 ["inputs","histories"],"all sequences of styled and masked paths",
 "There is no renderer test.",
 ["renderer/gg/draw.go"],[("path replay and paint selection","renderer/gg/draw.go drawTransformed"),("mask rendering","renderer/gg/draw.go getMask")],
 ["pixels of the gg context"])
p("C19","Drawing never changes the document and is repeatable",
 "Drawing a parsed document leaves it deeply unchanged, so drawing it again, on any back end, with any options, in any order or concurrently from several goroutines onto separate canvases, always produces the same pixels as drawing it first. Drawing one document never affects the result of drawing another.",
 ["histories","schedules"],"all histories of draw calls over documents, back ends and options, sequential and concurrent",
 "There is no renderer test.",
 ["renderer/draw2d/draw.go","renderer/gg/draw.go","renderer/rasterx/draw.go","renderer/options.go","patterns.go"],[("value copies of styles and gradients","drawTransformed, toRasterxGradient, ApplyPathExtent")],
 ["deep equality of the document; pixels"])
p("C20","The text form of a path parses back to the same path",
 "The text form of any path is valid SVG path data: parsing it in strict mode yields the same sequence of operations with every coordinate within 1/64 pixel of the original.",
 ["inputs"],"all paths (sequences of operations that begin with a moveto and continue with a moveto after a close)",
 "No test prints a path.",
 ["path.go","parse_path.go"],[("operation formatting","path.go String methods")],
 ["Path.ToSVGPath, Path.String"])
p("C21","Matrix operations form the affine algebra they document",
 "Multiplying two matrices composes them (transforming by a*b equals transforming by b, then by a), the identity is neutral, an inverse undoes its matrix whenever the determinant is non-zero, and translating, scaling, rotating and skewing a matrix equal multiplying it on the right by the elementary matrix. The floating-point, vector (without translation) and fixed-point transformations and the per-operation transforms all agree with the same matrix. The line width scale is the mean length of the images of the two unit vectors.",
 ["inputs"],"all matrices and points, all products of any length",
 "No test touches matrices.",
 ["matrix.go"],[("product and inverse","matrix.go Mult, Invert"),("elementary constructors","matrix.go Translate, Scale, Rotate, SkewX, SkewY")],
 ["svg.Matrix2D methods"])
p("C22","Every parsed document can be drawn, and drawing composes path by path",
 "Drawing any document that parsing returned, also the partial document of a failed parse, ends normally on every back end as long as its coordinates, line widths and dash periods stay within the range of the rasterisers (a few thousand pixels). What is on the canvas afterwards depends only on the sequence of paths painted with their masks and options: not on how they are spread over draw calls, on whether the context is new or was used before, or on paths without paint and calls with opacity zero in between.",
 ["inputs","histories"],"all parsed documents (also of malformed and unsupported content), all sequences of draw calls over sublists of their paths, with new and kept contexts, on every back end",
 "There is no renderer test.",
 ["renderer/draw2d/draw.go","renderer/gg/draw.go","renderer/rasterx/draw.go","renderer/options.go"],[("per-path drawing","drawTransformed of each back end"),("state kept by the contexts","rasterx.Dasher, gg.Context, draw2dimg.GraphicContext")],
 ["pixels, panics, errors and termination of each back end's Draw"])
p("C23","The helpers for painting drivers describe paths and gradients truthfully",
 "A path built with the path methods holds exactly the operations added since it was last cleared, in order and with the given points; stopping without closing adds none. The colour that stands for a pattern is a plain colour itself, for a gradient the colour of its first stop that has one, and black otherwise. Applying a path extent to a gradient in bounding-box units makes the extent its bounds and returns the gradient matrix followed by the scaling of the unit box to the size of the extent; in user-space units it leaves the bounds alone and returns the gradient matrix. Only the last extent applied counts, nothing else of the gradient changes, and copies of it are unaffected. The names of the join, cap and gap modes are those of their constants.",
 ["inputs","histories"],"all sequences of calls of the exported helpers, all gradients, points and extents",
 "No test touches the helpers.",
 ["path.go","patterns.go","types.go"],[("path building","path.go Start, Line, QuadBezier, CubeBezier, Stop, Clear"),("extent of a gradient","patterns.go Gradient.ApplyPathExtent"),("colour of a pattern","patterns.go GetColor"),("names","types.go String methods")],
 ["svg.Path methods","svg.Gradient.ApplyPathExtent","svg.GetColor","String methods of JoinMode, CapMode and GapMode"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
