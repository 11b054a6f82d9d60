"""Property catalogue: the single source of properties.jsonl/MANIFEST.json."""

HIST = ('explicit-state exploration of operation histories on the real '
        'objects, in lockstep with a reference model')
ENUM = ('exhaustive enumeration of a bounded input space on the real code '
        'against a reference model')
BOTH = HIST + '; plus ' + ENUM
NOTE = ('Every execution inside the stated bounds was run on the real code '
        'and compared with the reference model at every step; nothing is '
        'claimed beyond the operation/value alphabets and depths recorded in '
        'the evidence file. Trusts the reference model and Python/lxml.')

PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, forall, why, files, mechanism,
         technique=BOTH, note=NOTE):
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        over=over, forall=' '.join(forall.split()),
        why=' '.join(why.split()), files=files, mechanism=mechanism,
        technique=technique, note=note))


prop('C16', 'SVG transforms: lists parse, compose, serialise and edit exactly',
     '''Parsing a transform list yields its functions in order with the type,
     angle and full argument values SVG defines (defaults filled in), each
     function's matrix is the SVG-defined one, the list matrix is their
     left-to-right product (consolidate() replaces the list by that single
     matrix), and tostring() parses back to the same functions for every
     delimiter. SVGTransformList behaves as a mutable sequence of the very
     SVGTransform objects inserted: every SVG DOM and sequence operation
     edits exactly the addressed position, returns the addressed item, and
     raises IndexError/TypeError without changing the list for bad indices
     or non-transform items.''',
     ['inputs', 'histories'],
     '''every well-formed transform function over a number/separator alphabet,
     every list of at most three functions, every sequence of list edits''',
     '''tests parse three strings and call each list method once; the matrix
     product order, default arguments and interleaved edits need all
     combinations''',
     ['svgpy/transform.py'],
     [('SVGTransform.set*/matrix/tostring', 'svgpy/transform.py'),
      ('SVGTransformList', 'svgpy/transform.py')])

prop('C17', 'DOMMatrix operations are exact 4x4 affine algebra',
     '''Every DOMMatrix/DOMMatrixReadOnly transformation (translate, scale,
     scale3d, rotate, rotate axis-angle/from-vector, skew, flip, multiply,
     inverse, member assignment, clear) post-multiplies the matrix [geometry]
     defines, all member aliases, arrays, JSON and string forms and
     transform_point() report that same matrix, and is2d stays True exactly
     while no 3D component was introduced. *_self methods mutate and return
     the receiver; all others leave the receiver (and operands) untouched and
     return an independent DOMMatrix. Contradictory from_matrix() dictionaries
     are rejected with ValueError.''',
     ['histories', 'inputs'],
     '''every sequence of operations from seven initial matrices up to the
     depth bound; every pair of dictionary members; every product of three
     matrices''',
     '''composition order, aliasing between copies and the 2d flag only go
     wrong for particular operation sequences and argument patterns''',
     ['svgpy/geometry/matrix.py'],
     [('DOMMatrixReadOnly / DOMMatrix', 'svgpy/geometry/matrix.py')])

prop('C18', 'DOMRect union, intersection, containment and transforms are exact',
     '''For all rectangles, unite()/| is the smallest rectangle holding both
     (an operand of negative size counts as its corner point, a null one is
     ignored),
     intersect()/& is the common region when both are valid and their
     interiors overlap and the unchanged left operand otherwise, contains()
     is edge-inclusive containment in a valid rectangle, and transform(m) is
     the bounding box of the four corners mapped by a 2D matrix (also for a
     zero-width or zero-height rectangle).
     adjust/normalize/translate/transpose/set_*/move_to change exactly the
     edges they name, edge getters, isvalid/isempty, equality and JSON always
     agree with x/y/width/height. Copying forms never modify the operands and
     *_self forms return the receiver.''',
     ['inputs', 'histories'],
     '''all pairs of rectangles on a small grid (all edge orderings, empty and
     null rectangles), all listed matrices, all edit histories to depth 3''',
     '''tests cover 18 relative positions with one size; the relation of two
     rectangles has 169 interval cases and transforms need all quadrants''',
     ['svgpy/geometry/rect.py'],
     [('DOMRectReadOnly / DOMRect', 'svgpy/geometry/rect.py')])


prop('C12', 'SVG path data parses completely and serialises losslessly',
     '''PathParser.parse() accepts every SVG path data spelling (all commands in
     both cases, implicit repetition, every SVG number form, arc flags, and
     whitespace/comma separators that SVG lets be left out) and returns
     exactly the written segments in order, each with its command letter and
     argument values; an incomplete trailing argument group is dropped and
     nothing else. tostring() output parses back to the same segments
     (numbers to six decimals, same-command repetition elided) and is stable.
     SVGPathSegment setters replace type and values; values, end,
     isabsolute/isrelative, get_bearing, equality and tostring always agree
     with them.''',
     ['inputs', 'histories'],
     '''every command with every number spelling and separator, every program
     of at most three commands, every pair of segment setters''',
     '''tests parse the W3C example paths, which never pack numbers or flags
     and never put most commands next to each other''',
     ['svgpy/path.py'],
     [('PathParser.parse/tostring', 'svgpy/path.py'),
      ('SVGPathSegment', 'svgpy/path.py')],
     technique=ENUM)


prop('C13', 'Normalised path data draws the same curve with M, L, C and Z only',
     '''For every path, PathParser.normalize() returns only absolute M, L, C
     and Z segments that draw the same curve in the same order: relative
     commands resolve against the current point and bearing, H/V become L,
     Q/T are elevated exactly, S/T reflect the previous control point only
     after a curve of the same degree (and use the current point otherwise,
     also after closepath, arcs and bearings), closepath returns to the start
     of the subpath, circular arcs become cubic pieces within 0.1% of the
     circle with the extent and direction the flags select (radii scaled up
     when too small, zero radius a line, coincident ends nothing), arcs of
     any ellipse join their pieces on that ellipse and end exactly. It is
     idempotent, never changes its argument, and commutes with a round trip
     through text.''',
     ['inputs'],
     '''every program of at most three commands after a moveto (four for curve
     commands), every arc over radii, directions, flags, rotation, bearing''',
     '''tests normalise a dozen hand-picked paths; reflection and current-point
     rules depend on which command precedes which''',
     ['svgpy/path.py'],
     [('PathParser.normalize', 'svgpy/path.py'),
      ('PathSegment.normalize/toabsolute/get_next_control_point',
       'svgpy/path.py')],
     technique=ENUM)

prop('C14', 'Path transformation, bounding box and total length are exact',
     '''PathParser.transform(path, m) returns absolute segments drawing exactly
     the image of the path under the 2D matrix m (arcs included: radii,
     rotation and sweep follow scaling, skew and reflection) without changing
     its argument. PathParser.get_bbox() of a normalised path is the tight
     box of what is drawn (curve extrema, not control points; horizontal and
     vertical lines count; closepath lines count).
     PathParser.get_total_length() is the arc length of all drawn segments
     (arcs of any ellipse, all curves, closing lines; movetos add nothing)
     and agrees with the length of the normalised path.''',
     ['inputs'],
     '''all programs of C13, every matrix of a list covering each affine kind,
     all control polygons and polylines over a small grid''',
     '''numeric degeneracies (extrema at the ends, vanishing leading
     coefficients, flat boxes, quadrant boundaries) need systematic inputs''',
     ['svgpy/path.py', 'svgpy/geometry/rect.py'],
     [('PathParser.transform/get_bbox/get_total_length', 'svgpy/path.py'),
      ('Ellipse.get_length', 'svgpy/path.py'),
      ('CubicBezierCurve', 'svgpy/path.py')],
     technique=ENUM)


prop('C01', 'DOM tree mutation: every edit places, moves and detaches nodes exactly',
     '''For every sequence of tree edits (append, prepend, append_child, extend,
     insert, insert_before, addnext, addprevious, remove, remove_child,
     replace, replace_child, text_content assignment) on elements, comments
     and processing instructions, the tree is the one the DOM defines: each
     node ends at the addressed place exactly once (a node already in a tree
     moves, taking its subtree and, as in lxml, its tail text), strings are
     inserted as text in document order, remove/replace return the removed
     node, which keeps its subtree. Insertion below itself or a descendant,
     of an attribute, into a comment or PI, or relative to/removal of a
     non-child raises (HierarchyRequestError, NotFoundError) and changes
     nothing. Parent, child, sibling, element-sibling, root, containment,
     text_content and serialised views always agree. owner_document of a
     whole inserted subtree becomes that of its new parent; removal keeps
     it.''',
     ['histories'],
     '''every operation with every operand of two node universes, every pair
     and triple of operations over them''',
     '''tests perform single edits on fresh trees; moving nodes between
     places, text placement and rejected edits after other edits need all
     sequences''',
     ['svgpy/dom.py', 'svgpy/element.py', 'svgpy/window.py'],
     [('Element/Comment/ProcessingInstruction tree methods', 'svgpy/dom.py'),
      ('Node.ensure_pre_insertion_validity/attach_document',
       'svgpy/dom.py')],
     technique=HIST)

prop('C02', 'Attribute views agree: attrib, NamedNodeMap, Attr nodes, element methods',
     '''For every history of attribute edits through any route (lxml set/attrib,
     set/remove/toggle_attribute with and without namespace, the attributes
     map including pop/update/clear, Attr nodes and their value setters,
     reflected id/class_name), all views report the same names, order and
     values; an attribute is identified by namespace and local name only, and
     editing one never touches another. An attribute keeps one Attr object
     while it exists; attached Attrs read and write their element, removal or
     replacement through the map or element detaches them keeping their last
     value, set_*node returns the displaced Attr. Setting an empty or None
     value through the map or element removes the attribute. An Attr in use
     by another element raises InUseAttributeError, removing a foreign,
     detached or missing attribute raises KeyError, malformed qualified names
     are rejected, and rejected operations change nothing.''',
     ['histories', 'inputs'],
     '''every operation, every pair of operations (with and without reading
     all views in between), reduced histories to depth 3; all namespace
     spellings of a name''',
     '''the Attr cache, the lxml attributes and Attr.owner_element are kept in
     sync by hand; they drift apart only after particular sequences''',
     ['svgpy/dom.py', 'svgpy/utils.py'],
     [('NamedNodeMap', 'svgpy/dom.py'), ('Attr', 'svgpy/dom.py'),
      ('Element.*attribute*', 'svgpy/dom.py'),
      ('QualifiedName', 'svgpy/utils.py')])

prop('C03', 'class_list is a live ordered token set and dataset a live map',
     '''class_list (DOMTokenList) always shows the distinct ASCII-whitespace
     separated tokens of the attribute in order, however it was written, and
     every DOM and sequence edit (add, remove, toggle, replace, insert,
     append, extend, pop, index and slice assignment/deletion, reverse,
     clear) yields exactly the resulting ordered set, never duplicates a
     token, drops the attribute with the last token, leaves other attributes
     and argument lists alone, and rejects empty tokens or tokens with
     whitespace with ValueError before changing anything. dataset
     (DOMStringMap) is a live bijection between camel-case keys and data-*
     attributes without ASCII capitals ([HTML]: only "-" + a-z maps to a
     capital): each key reads, lists, writes and deletes exactly its
     attribute; "-" + a-z in a key raises ValueError, an invalid name
     InvalidCharacterError; an empty or None value deletes.''',
     ['histories', 'inputs'],
     '''every operation pair on eight attribute spellings, reduced histories to
     depth 4; every key and attribute suffix of up to four characters over
     ten character classes''',
     '''duplicates, odd whitespace, slices and name mapping corner cases only
     show for particular spellings and sequences''',
     ['svgpy/dom.py', 'svgpy/base.py'],
     [('DOMTokenList', 'svgpy/dom.py'), ('DOMStringMap', 'svgpy/dom.py')])

prop('C04', 'Inline style block and style attribute never disagree',
     '''element.style (CSSStyleDeclaration) and the element's style attribute
     always show the same declarations after any sequence of set_property,
     item assignment, update, remove_property, del, pop, clear and direct
     attribute edits or removal (for properties without shorthands). Parsing
     honours strings, url(), functions, blocks, comments and !important;
     the last declaration of a name wins unless an earlier one is important;
     malformed ones are skipped; names are case-insensitive except --custom
     ones. Setting stores the trimmed value, appends the property, keeps the
     old priority when none is given, ignores priorities other than ""
     and "important" and values that are no single component list (top-level
     ";" or "!", stray brackets); "" removes. A write leaves the other
     declarations' text and other attributes alone, the attribute is the
     sorted "name: value;" list and vanishes with the last declaration; what
     is written reads back equal. A read-only block raises
     NoModificationAllowedError and never changes. The same holds for blocks
     without owner and blocks of style rules.''',
     ['histories', 'inputs'],
     '''all operation pairs over 45 operations and 3 start texts, reduced
     histories to depth 4-5 (observed at every step and only at the end); 33
     value spellings x 3 names x 3 starts; all declaration sequences to length
     3 over 10 declaration spellings''',
     '''attribute text and declaration map are two copies synchronised lazily;
     they drift apart only after particular sequences or odd values''',
     ['svgpy/css/__init__.py', 'svgpy/utils.py'],
     [('CSSStyleDeclaration', 'svgpy/css/__init__.py'),
      ('_StyleAttribute', 'svgpy/css/__init__.py'),
      ('style_to_dict', 'svgpy/utils.py')])

prop('C05', 'Shorthands and their longhands are always consistent',
     '''For font, font-variant, font-synthesis, mask, mask-border, overflow,
     text-decoration and white-space, in inline, ownerless and rule blocks:
     setting a valid shorthand value (components in any legal order, any case
     of a CSS-wide keyword) declares every longhand, with the given
     component, else its initial value (literal "initial" for mask,
     mask-border and text-decoration), all with the given priority; reading
     the shorthand gives the canonical serialisation, setting which again
     reproduces the same longhands, as does setting the longhands one by
     one. It reads "" as soon as a longhand is missing, priorities differ,
     CSS-wide keywords are mixed, or no shorthand value can express the
     longhands; its priority is the common one, else "". Removing it removes
     exactly its longhands. After any history the style attribute lists the
     shorthand where one exists and single longhands otherwise, never both,
     and reads back as the same longhands. An invalid overflow value is
     ignored, and so is a value of any shorthand that has a CSS-wide keyword
     among other components.''',
     ['inputs', 'histories'],
     '''all component combinations differing from two bases in <= 3 places (2
     for mask; full product for mask-border and text-decoration; full product
     everywhere in thorough) x 3 word orders x 2 priorities; every
     keyword; all histories of set/remove of shorthand and longhands to
     depth 2-3 per shorthand''',
     '''collapsing and expanding are separate code paths per shorthand whose
     agreement depends on value combinations and edit order''',
     ['svgpy/css/shorthands.py', 'svgpy/css/longhands.py',
      'svgpy/css/__init__.py'],
     [('Shorthand', 'svgpy/css/shorthands.py'),
      ('_StyleAttribute', 'svgpy/css/__init__.py')])

prop('C06', 'Style sheet rules, media lists and @import follow the sheet text',
     '''Parsing any sheet text (string, file or data: URL) gives one rule object
     per style rule, @media, @font-face, @font-feature-values, @namespace and
     @import, in order, with the selector, declarations, media list, feature
     values, prefix, namespace and URL as written (white space collapsed
     outside strings and escapes; last semicolon optional; keywords in any
     case; strings or url()), skipping comments, unknown at-rules, block
     at-rules without a block and @namespace without a URI. A rule's css_text
     parses to an equal rule. parent_rule and parent_style_sheet are right at
     every level. insert_rule(text, i) puts all rules of the text at i and
     returns i (0 is a sheet's default), delete_rule(i) removes one rule
     (IndexError out of range); all other rule objects keep identity and
     order. MediaList behaves as a list of stripped queries under any
     history: append, append_medium and extend skip duplicates and lists,
     delete_medium raises ValueError if missing, media_text joins with ", "
     in lower case and splits when set; condition_text is the same text.
     @import resolves against the importing sheet, loads that sheet with
     owner_rule, parent sheet and media set; missing or circular imports are
     empty. CSS.escape(s) follows CSSOM and reads back as s.''',
     ['inputs', 'histories'],
     '''all texts of <= 2 of 29 rule spellings and of 3 of 15; all rule list
     histories to depth 4 and media list histories to depth 3; 3-sheet
     import chains over every combination of directories, spellings, media
     and ends; all strings of <= 3 of 28 characters for CSS.escape''',
     '''rule positions and parents depend on edit order, and imports on files
     in other directories; unit tests parse a few sheets once''',
     ['svgpy/css/__init__.py'],
     [('CSSParser', 'svgpy/css/__init__.py'),
      ('MediaList', 'svgpy/css/__init__.py'),
      ('CSSGroupingRule', 'svgpy/css/__init__.py'),
      ('CSSImportRule', 'svgpy/css/__init__.py')])

prop('C07', 'Media queries evaluate as Media Queries 4 defines',
     '''window.match_media(q).matches, read at any time and after any changes of
     the screen, window or document root, equals the Media Queries 4 value of
     q: a list matches if one query does (an empty list always); a query is a
     type with optional not/only and "and" conditions, or a condition built
     from parenthesised features and conditions with not, and, or at any
     depth; mixing and/or at one level, and any other malformed query, does
     not match and leaves the other queries alone. Keywords are
     case-insensitive, any white space separates. Features: width, height,
     device-width/-height (px, in, cm, mm, pt, pc, q, em), aspect-ratio,
     device-aspect-ratio, resolution (dppx, dpi, dpcm), color, color-index,
     monochrome, grid, scan, update, color-gamut, orientation, as (f),
     (f: v), (min-/max-f: v), (f < v), (v <= f), (a < f <= b); discrete ones
     have no min-/max-. width and height are the root element's viewport.
     Neither zero-sized viewports nor bad values raise. mql.media is the text
     given. (Not covered: "not <type> and (...)", whose value a test pins.)''',
     ['inputs', 'histories'],
     '''all sequences of <= 5 of 10 tokens; all and/or/not trees with <= 3
     atoms and 3 levels; 15 features x values x forms x environments; all
     lists of <= 2 of 16 queries; held query lists under all sequences of 3
     of 12 environment changes''',
     '''boolean structure and comparisons multiply; the unit tests sample about
     a hundred flat queries''',
     ['svgpy/css/mediaquery.py', 'svgpy/window.py', 'svgpy/css/screen.py'],
     [('match', 'svgpy/css/mediaquery.py'),
      ('MediaQueryList', 'svgpy/window.py'),
      ('Screen', 'svgpy/css/screen.py')])
prop('C08', 'Computed styles follow the CSS cascade and inheritance',
     '''element.get_computed_style() always reflects the current document. A
     rule applies to an element iff one of its selectors matches: unprefixed
     type selectors match any namespace, svg| the SVG namespace; *, class, id,
     attribute operators, structural pseudo-classes (an+b), :not(simple),
     combinators " ", >, +, ~. A rule whose selector is malformed or has an
     unknown pseudo-class or prefix is dropped. Precedence: presentation
     attributes (below any author rule) < author rules < style attribute <
     author !important < style !important < the built-in "display: none
     !important" of defs, symbol, marker, ...; among author rules the higher
     specificity (of the matching selectors), then the later one. Sheets:
     xml-stylesheet PIs, then style and link elements in document order,
     @import and nested @media, each only if its media list matches, its type
     is text/css and it is not alternate. Inherited properties take the
     parent's value, others their initial one, when unset; "inherit" takes
     the parent's. display is none inside any display: none. font-size: em, %,
     larger (x1.2), smaller (/1.2) refer to the parent's computed size
     (root: initial), rem to the root's, whichever element declares them;
     inherited as computed; never below 10. font-weight: bolder and lighter
     step the parent's computed weight as CSS Fonts defines. (font, marker and
     font-variant shorthands, initial and unset are not covered.)''',
     ['inputs', 'histories'],
     '''600+ selectors (all pairs of 10 compounds x 8 combinator spellings, all
     triples of 4) x every element of 2 trees x 3 namespace styles; attribute
     x 0-2 rules x inline x !important; 51 properties x 3 levels x 6 sources;
     sequences of 2 of 21 kinds of sheets; chains of 3 font sizes / weights;
     all sequences of 3 document edits''',
     '''selector structure, specificity, order, importance, origin and level
     multiply; unit tests compute a few styles from class selectors''',
     ['svgpy/style.py', 'svgpy/dom.py', 'svgpy/core.py'],
     [('get_css_style', 'svgpy/style.py'),
      ('get_inherited_style', 'svgpy/dom.py'),
      ('compute_font_size', 'svgpy/core.py')])
prop('C11', 'Lengths convert, compute and compare by their physical size',
     '''A SVGLength text is an optional sign, a decimal number with optional
     exponent and at most one known unit in any case directly after it,
     surrounded by optional white space; any other text or unit raises
     ValueError (in the constructor, value, convert, tostring and new_value)
     and leaves the length as it was. For every pair of units value(u) is
     the same size expressed in u: in, cm, mm, q, pt, pc, px and no unit by
     their fixed ratios (96px = 1in = 2.54cm = 72pt = 6pc); em by the font
     size of the parent of the referencing element, rem by the root's (the
     default font size without one; there ex, cap, ch, ic are half an em);
     vw, vh, vmin, vmax by the nearest viewBox (else viewport; 100 without
     element); % by viewport width, height or normalised diagonal for a
     horizontal, vertical, unspecified direction, else by em. dpi, dpcm,
     dppx convert among themselves only (else ValueError). convert(u) keeps
     the size, context and direction; tostring(u) is value(u) and u. +, -, *,
     / and their in-place forms compute in the left operand's unit (the
     right one's if the left has none), with int/float factors on either
     side of *; -, +, abs, ** act on the number. Results are new objects
     with the same context; in-place forms return the object itself;
     operands never change. Comparisons order by size with tolerance 1e-9.
     isabsolute, isrelative, isresolution partition the units.''',
     ['inputs', 'histories'],
     '''12 numbers x 22 units x spellings; all unit pairs x 11 environments
     (fonts, viewports, nesting) x directions; all pairs of 73 lengths under
     every operator; all operation histories to depth 3''',
     '''22 units make 484 conversions, each depending on element, direction
     and history; tests try a handful''',
     ['svgpy/core.py'], [('SVGLength', 'svgpy/core.py')])

prop('C15', 'Basic shapes yield the outline SVG 2 defines for their attributes',
     '''For every combination of geometry attributes (absent, auto, numbers,
     absolute and font-relative units, percentages of viewport width, height
     or diagonal) get_computed_geometry() gives the resolved pixel values and
     get_path_data() the SVG 2 outline: circle and ellipse start at
     (cx + rx, cy) with four clockwise quarter arcs and closepath; line M L;
     rect M H V H V Z from its top left corner, with quarter arcs in between
     when both radii are positive (auto radius = the other one, then clamped
     to half the size); nothing when a radius, width or height is not
     positive or a line has no length. polygon and polyline list their
     points as M L.. (polygon closed with Z when it has two or more), none
     for an odd number of coordinates; path gives its parsed d ("none" and
     empty: nothing) and set_path_data() then get_path_data() returns what
     was set. g, a and svg concatenate their descendants' data in document
     order; defs, symbol and pattern give nothing. With
     settings.normalize every outline is its PathParser.normalize() form;
     settings of another type raise TypeError for circle, ellipse, rect and
     path. points reads and writes the attribute. get_total_length() is the
     outline's length. Asking never changes the element: results follow the
     current attributes after any sequence of edits.''',
     ['inputs', 'histories'],
     '''all combinations of 6-9 length spellings per attribute of each shape;
     all point lists of <= 5 of 3 numbers and 36 separator pairs; all trees
     of <= 3 shapes in 6 container kinds; all sequences of 3 attribute
     edits''',
     '''auto, percentage and clamping rules interact between attributes; tests
     draw a few rectangles''',
     ['svgpy/element.py', 'svgpy/base.py'],
     [('SVGRectElement', 'svgpy/element.py'),
      ('SVGEllipseElement', 'svgpy/element.py'),
      ('SVGAnimatedPoints', 'svgpy/base.py')])



prop('C19', 'Viewports, viewBox, preserveAspectRatio and CTMs follow SVG 2',
     '''For every chain of nested svg and g elements: get_viewport_size() gives
     the nearest svg's x, y, width and height with auto = 100%, percentages
     referring to the parent svg's viewport (the window's inner size, or
     1280x720 without a window, for the outermost one); a viewBox is four
     numbers separated by white space and/or a comma, anything else or a
     non-positive size is ignored; preserveAspectRatio parses every
     alignment and meet/slice keyword, defaults to xMidYMid meet, and
     serialises back; the viewport transformation is SVG 2's equivalent
     transform. get_ctm() is the product, from the nearest svg ancestor
     inwards, of viewport transformations of svg elements and transforms of
     g and shape elements; get_screen_ctm() is the same product from the
     outermost svg, preceded by its current scale and translate. Percentage
     lengths of shapes refer to the nearest viewBox size or, without one, to
     that viewport's size; current_scale/current_translate only
     take effect on the outermost svg; zoom_and_pan only accepts its two
     values. owner_svg_element/viewport_element are the nearest ancestor
     svg (None for the outermost), get_farthest_*/get_nearest_* the outermost
     and the nearest (itself included). Results always
     reflect the current attributes after any edit.''',
     ['inputs', 'histories'],
     '''all alignments and white-space spellings, all combinations of listed
     viewport sizes, viewBoxes, nested viewports and group transforms, six
     window sizes, and all histories of attribute edits to depth 2 (3)''',
     '''tests check a dozen documents; the matrix depends on every combination
     of size, viewBox, alignment and nesting''',
     ['svgpy/base.py', 'svgpy/element.py', 'svgpy/core.py'],
     [('SVGElement viewport lookup / SVGGraphicsElement CTM /'
       ' SVGPreserveAspectRatio', 'svgpy/base.py')])


prop('C20', 'Groups, nested svg and use have the path data and boxes of what they draw',
     '''get_path_data() of a container (svg, g, a) is the concatenation, in
     document order, of the path data of its rendered children, each
     transformed by the child's local transformation: its transform attribute,
     preceded for a nested svg by its viewport transformation (x, y, size,
     viewBox). get_transformed_path_data() also applies the element's own
     local transformation. Children whose own display property is none
     (attribute, style attribute or style sheet, inherit included) are left
     out with everything in them, and so are defs, symbol, clipPath, mask,
     marker, pattern, gradients, title and unknown elements; visibility has
     no effect. A use element draws the referenced element (href, else
     xlink:href), with that element's local transformation, translated by the
     use's x and y; the first element with the id counts, wherever it is
     (defs and hidden groups included). Missing, hidden, never-rendered or
     circular references (directly or by way of others) and references in
     detached trees draw nothing, and never recurse forever. get_bbox() is the
     tight bounding box of exactly that path data in the element's own user
     space: its own transform never matters, those of descendants do; it is
     empty (DOMRect with None) if nothing is drawn. Boxes of text are
     transformed with it. All results reflect the current state of the tree
     and change nothing in it.''',
     ['inputs', 'histories'],
     '''9 shapes x 9 transforms in 2 groups, sequences of 2 (3) of 24 kinds of
     children, 5x5 nested viewports, 28 targets of use, all graphs of 3 groups
     using each other (3 edges; any), 81 references, pairs of 31 edits''',
     '''tests use single groups without transforms; nesting, hidden parts and
     reference cycles combine without limit''',
     ['svgpy/base.py', 'svgpy/element.py', 'svgpy/path.py', 'svgpy/text.py'],
     [('SVGGraphicsElement.get_bbox', 'svgpy/base.py'),
      ('SVGUseElement.get_path_data', 'svgpy/element.py')])

prop('C21', 'URLs parse, normalise, resolve, mutate and serialise consistently',
     '''For hierarchical URLs and about:, blob: and data: URLs, URL and Location
     expose exactly the components written: scheme and host in lower case
     (IDNA, bracketed IPv6), the port hidden from host, href and origin when
     it is the scheme's default, user name and password percent-encoded, the
     path percent-normalised with dot segments and empty segments removed and
     a trailing slash (or final dot segment) kept as one, encoded slashes
     staying encoded, the query as its name=value pairs sorted by name, the
     fragment encoded. href concatenates the components and parses back to
     the same ones. Relative references resolve against the base as in RFC
     3986 without changing the base; an absolute URL ignores it. Each setter
     changes only its component (host also the port, a scheme change drops a
     default port, hostname keeps the port unless it brings one); an invalid
     value raises ValueError and leaves the URL as it was. search_params is
     the live mapping of the query: edits show up in search and href, so
     that decoding the query as form data gives the mapping back, and
     assigning search or href updates it; tostring() is the form encoding.''',
     ['inputs', 'histories'],
     '''all pairs (thorough: triples) of spellings of the seven components, all
     paths of up to 4 (5) segments from 8, 10 bases x 33 references, all
     histories of valid and invalid setter calls and query edits to depth 2
     (3)''',
     '''tests use about forty URLs, one component at a time; the components
     interact (default ports, userinfo, relative paths, setter order)''',
     ['svgpy/url.py'],
     [('URL / URLSearchParams / Location', 'svgpy/url.py')])


prop('C09', 'Typed OM numeric values convert, combine and parse as they calculate',
     '''A CSSUnitValue takes any CSS unit in any letter case (lower-cased;
     ValueError for others; CSS.px() and the like build the same), converts
     with to() to every unit of the same absolute dimension by the CSS ratios
     and to itself, returning a new value and leaving the original alone, and
     compares (==, <, >, ...) by the converted amounts; ValueError where no
     conversion exists. equals() is structural: same classes, operands in the
     same order, same value and unit. Math values (sum, product, negate,
     invert, min, max, clamp) keep their operands as given and unchanged,
     have the type CSS gives the calculation (powers and percentages
     included) and raise ValueError when operands cannot be combined; to()
     and to_sum() give the calculation's numeric result in the units asked
     for, ValueError when it is not expressible. add() appends the terms,
     adding up operands that all have one unit. parse() reads numbers,
     dimensions, percentages, calc(), min(), max() and clamp() in any case,
     nested, with the usual precedence, associativity and parentheses;
     malformed or untypeable text raises ValueError. A parsed value
     serialises as written until a value is assigned; tostring() of a built
     value parses back to the same calculation.''',
     ['inputs'],
     '''all pairs of 34 units over 8 values, all math trees of the seven
     operators to depth 3 (4), all operator strings and bracketings of up to
     4 (5) operands, all strings of up to 4 (5) tokens of 10''',
     '''tests evaluate a dozen fixed expressions; precedence, nesting, powers
     and incompatible operands only show over combinations''',
     ['svgpy/css/types.py'],
     [('CSSNumericValue / CSSUnitValue / CSSMath* / CSSNumericType',
       'svgpy/css/types.py')], technique=ENUM)

prop('C10', 'Typed OM values and style maps reify declarations exactly',
     '''CSSStyleValue.parse()/parse_all() of a value containing var() anywhere
     (any letter case, inside functions, parentheses, brackets or fallbacks),
     or of an unregistered custom property, give one CSSUnparsedValue whose
     members are the text pieces and CSSVariableReferenceValues (name,
     fallback as an unparsed value, None without a comma) in order; such
     values behave as mutable lists of strings and references (TypeError for
     anything else) and serialise exactly the current members. For the other
     properties with one value, exactly the values of the property's grammar
     are accepted - CSS-wide keywords alone, its keywords, lengths (unitless
     are px), percentages, numbers, angles, colors, url() - with the matching
     class, value and text, in any case of the property name; everything
     else raises ValueError and CSS.supports() is False. parse_all() splits
     list-valued properties at commas. Custom properties registered in a
     document parse by their syntax, in that document only; registering twice
     or without dashes raises ValueError. StylePropertyMap and its read-only
     sibling are live views of the declaration block: get, get_all, has, in,
     [], len, iteration show its declarations (missing: None, [], False,
     KeyError); set, [] =, delete and clear write through; set() of a value
     of another property raises ValueError, of anything but strings and style
     values TypeError, and leaves the block unchanged. Names are
     case-insensitive except custom properties.''',
     ['inputs', 'histories'],
     '''all sequences of up to 3 (4) pieces in up to two nested blocks, all
     list edits to depth 2 (3), every pair of 74 properties and some 190
     values, all map histories of 54 operations to depth 2 (3)''',
     '''tests parse one or two values per property and never one it should
     refuse; members, edits and the live map need combinations''',
     ['svgpy/css/types.py', 'svgpy/css/props.py', 'svgpy/css/__init__.py'],
     [('CSSStyleValue / CSSUnparsedValue / StylePropertyMap',
       'svgpy/css/types.py'), ('PropertyDescriptor.support',
                               'svgpy/css/props.py')])

prop('C24', 'Element queries find exactly the matching elements, in document order',
     '''On a document (from its root, the root included) and on elements,
     get_elements_by_class_name, _tag_name, _tag_name_ns and _local_name
     return the list of matching elements in document order, each once. svg
     elements count themselves in the first three, other elements search only
     their descendants; get_elements_by_local_name never counts the element
     itself. Classes: all the names in the argument (split at ASCII
     white-space, any other characters literal, case-sensitive, empty finds
     nothing) must be among those of the class attribute. Tag names are
     prefixed names as in the source ('*': any); a namespace of None or '*'
     is any, local name '*' is any. get_element_by_id (documents and svg
     elements, itself included) gives the first match in document order, else
     None. query_selector_all gives the element itself or descendants that
     match any selector of the group, where ancestors and siblings outside
     the element take part in the matching; unprefixed types match any
     namespace, prefixes are those in scope at the element (the default
     namespace is also 'svg' if that is not declared); query_selector gives
     its first or None. Queries read their arguments only, and always reflect
     the current tree and attributes after edits; a document without an
     element finds nothing.''',
     ['inputs', 'histories'],
     '''all ordered trees of up to 4 (5) elements over 6 kinds of elements,
     searched from everywhere, 1700 pairs of class values, 690 (6000)
     selectors on two trees, edit histories to depth 3 (4)''',
     '''tests query a few fixed documents; document order, self inclusion,
     odd class names and stale results need all shapes and edits''',
     ['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/element.py',
      'svgpy/window.py'],
     [('get_elements_by_*', 'svgpy/utils.py'),
      ('Element.query_selector_all', 'svgpy/dom.py')])

prop('C23', 'The children of a document stay one root element and its siblings',
     '''A document without a root element only takes an element first
     (otherwise HierarchyRequestError); after that, comments and processing
     instructions. append, append_child, extend, prepend, insert (indexes as
     for lists), insert_before and replace put nodes where they say, in
     argument order, moving them from wherever they were; all nodes of a call
     are inserted or, if one is refused, nothing changes: strings, attributes
     and documents raise HierarchyRequestError, a second element TypeError, a
     reference that is not a child NotFoundError. Inserting the current root
     again, and replacing a node by itself, do nothing. child_nodes, iteration,
     len, in, children, first_child, last_child, document_element, iter(tags)
     and tostring() all describe the same sequence of nodes. A root element
     that moves elsewhere leaves the document empty; removed nodes are no
     children; comments and processing instructions around an element travel
     with it. Inserted subtrees belong to the document (owner_document).
     Methods that add, remove or replace one node return it (replace_child:
     the old one). Two documents never share a node. Styles, relative units
     and references are those of the tree an element is in now.''',
     ['inputs', 'histories'],
     '''all histories of 2 (3) of ~250 edits on two documents and 11 nodes; 5x5
     style sheets for subtrees moved in 5 ways''',
     '''what a call leaves behind depends on where each node was before; tests
     follow a few successful edits''',
     ['svgpy/window.py', 'svgpy/dom.py', 'svgpy/style.py', 'svgpy/core.py'],
     [('Document.append', 'svgpy/window.py'),
      ('Document.replace', 'svgpy/window.py')])

prop('C22', 'Navigation loads the right documents and style sheets, or changes nothing',
     '''Setting the location of a window or its document (relative references
     are resolved against the current URL, at about:blank against the current
     directory), location.href/assign() (entire URLs only), pathname, search
     or hash, and reload() fetch the resource anew and replace the content of
     the same Document object: child_nodes (with comments and processing
     instructions), owner documents, document_uri, url, origin and location
     all follow; about: URLs leave it empty. A navigation that fails (missing,
     malformed or empty file, data: URL, directory, bad host, port or scheme)
     raises and changes neither the URL nor the document. Other windows are
     unaffected; edits are discarded. Documents are decoded by the charset
     parameter of Content-Type (any case, optionally quoted), else their byte
     order mark, else the XML declaration, else as UTF-8. Style sheets
     referenced by xml-stylesheet, link or @import are resolved against the
     document, or the sheet the @import is in, at their current URL, fetched
     from file:, http: or data: URLs and decoded by byte order mark, charset
     of Content-Type, @charset, charset attribute, else UTF-8. References that
     cannot be used (no or invalid URL, only a fragment, unknown scheme,
     missing file) contribute nothing and the other sheets still apply.''',
     ['inputs', 'histories', 'fault_sequences'],
     '''all histories of 4 (6) of ~40 navigations, edits and rewrites of files
     over file: and http: (unmerged to 1 (2), observed to 2), 218 document and
     260 style sheet encodings, 3416 references''',
     '''tests load a few files once; what a failed or repeated navigation
     leaves behind and which charset wins needs every combination''',
     ['svgpy/window.py', 'svgpy/url.py', 'svgpy/utils.py', 'svgpy/style.py',
      'svgpy/css/__init__.py'],
     [('Document.navigate', 'svgpy/window.py'),
      ('Location', 'svgpy/url.py'), ('CSSParser.parse',
                                     'svgpy/css/__init__.py')])

prop('C25', 'The characters of texts are those of CSS white-space processing',
     '''get_chars() of a text element is the character data of the element and
     its displayed tspans (with the data between and after any children,
     comments and processing instructions included; nothing of title, desc,
     animation or other elements, and of tspans or texts with display: none,
     by attribute, style, style sheet or an ancestor), in document order,
     after the white-space processing of CSS Text over the whole text,
     whatever element boundaries lie in between: for normal and nowrap, a run
     of spaces, tabs and line breaks becomes one space, which belongs to the
     element of its first character, or nothing at the start and end of the
     text; a run with a line break also disappears between two East Asian
     wide characters (not Hangul) or next to a zero width space; pre and
     pre-wrap keep everything, pre-line keeps line breaks and drops white
     space around them. CR and CR LF count as line breaks, no-break and
     ideographic spaces are ordinary characters, and no space appears from
     nowhere. white-space is inherited and may differ per tspan: preserved
     white space never collapses. get_chars() of a tspan is its part of these
     characters, nested tspans included (empty or None without any).
     get_number_of_chars() is their number. text_content of a text is the
     unprocessed data of it and its tspans. Results follow every edit; outside
     of a text, a tspan has no characters.''',
     ['inputs', 'histories'],
     '''all strings of 4 (6) of 4 characters x 5 modes, 14x8x14 runs, 15 kinds of
     children between strings, nested tspans, sequences of 3 of 6 kinds of
     children, pairs (triples) of 19 edits''',
     '''tests pin six strings of one element; runs of white space cross any
     number of element boundaries''',
     ['svgpy/text.py', 'svgpy/core.py', 'svgpy/dom.py'],
     [('SVGTextContentElement.get_chars', 'svgpy/text.py'),
      ('CSSUtils.normalize_text_content', 'svgpy/core.py')])

prop('C26', 'The OpenType features of texts are those of their font properties',
     '''features_from_style() of the computed style of a text or tspan lists
     tag=value pairs, each tag once, as CSS Fonts 3 prescribes: font-kerning
     (none, normal; nothing for auto) sets kern and vkrn; every keyword of
     font-variant-ligatures (none disables liga, clig, dlig, hlig and calt),
     -caps, -numeric, -east-asian (all six forms, widths, ruby), -position and
     historical-forms of -alternates enables or disables exactly its features,
     in any combination and order; font-feature-settings (tags in either
     quotes, value omitted = 1, on, off or a number; the last value of a
     repeated tag counts; tags are case-sensitive) overrides all of them. The
     font-variant shorthand distributes its keywords to the longhands and
     resets the others; all these properties are inherited, and a longhand or
     shorthand (as an attribute or in style) on a descendant replaces what it
     inherits, nothing else. The style given is left unchanged.''',
     ['inputs'],
     '''every value of the 6 longhands, pairs (triples) of keywords in any order,
     combinations of one keyword per property, 9 font-feature-settings x 3
     font-kerning x all keywords, 17 declarations on each of 3 elements''',
     '''tests check the computed longhands of six documents and no features''',
     ['svgpy/opentype.py', 'svgpy/core.py', 'svgpy/dom.py', 'svgpy/style.py'],
     [('features_from_style', 'svgpy/opentype.py'),
      ('CSSUtils.parse_font_feature_settings', 'svgpy/core.py')],
     technique=ENUM)

prop('C28', 'Characters of horizontal texts are drawn where their position lists say',
     '''For horizontal left-to-right text (white-space, text-anchor, spacing
     and writing-mode left alone), character i of a text element, counted over
     its displayed tspans, starts where the previous one ended (position plus
     its advance; same y), or at the x and y given for it, moved by the dx and
     dy given for it. The n-th value of an x, y, dx or dy list belongs to the
     n-th character of that element (nested tspans included); a tspan's value
     replaces that of its ancestors for a character; exhausted lists give
     nothing; x and y of a text default to 0. rotate turns a character about
     its position by the next value of the list of the nearest element having
     one, the last value repeating. Lists are separated by white space or
     commas; lengths may have units, em of the element's font size,
     percentages of the viewport's width (x, dx) or height (y, dy). A ligature
     or base with combining marks is placed as its first character; dx and dy
     of its others move what follows. get_path_data() of a text or tspan is
     the outlines of its characters there, get_bbox() the union of their
     turned boxes (position to advance, ascent to descent of the font size),
     get_computed_text_length() the sum of their advances and
     get_sub_string_length(i, n) that of n characters (or fewer) from i; a
     ligature's advance is that of its first character. Positions, dx, dy and
     rotate change no length. All follow later edits.''',
     ['inputs', 'histories'],
     '''all combinations of 4 lists for each of 5 attributes; 5 shapes of tspans
     with 8 (12) sets of attributes on any 2 (3) elements; all words of
     ligatures and combining marks; pairs (triples) of 9 edits''',
     '''tests pin the boxes of a few sample documents; lists interact with
     nesting, ligatures and hidden elements''',
     ['svgpy/text.py', 'svgpy/core.py', 'svgpy/harfbuzz.py',
      'svgpy/freetype.py'],
     [('SVGTextContentElement._get_text_path_data', 'svgpy/text.py'),
      ('SVGTextContentElement.get_computed_geometry', 'svgpy/text.py')])

prop('C27', 'Names select namespace, element class and attribute; factories obey them',
     '''Element, attribute and document factories (SVGParser, Document,
     SVGDOMImplementation, create_sub_element*) and QualifiedName accept for
     (namespace, name) a local name, "{uri}local", or "prefix:local" where the
     prefix is html, xlink, xml or xmlns (or one of the given nsmap of
     QualifiedName) and is bound to that namespace. White space in either
     raises InvalidCharacterError; an empty name, or an empty part beside ':'
     or '}', ValueError; a prefix without or with another namespace, or
     another namespace than that in braces, NamespaceError; a rejected name
     creates nothing. tag, local_name, namespace_uri, prefix, tag_name and
     node_name of the element agree, before and after serialising and parsing;
     its class follows its local name in every namespace (SVG*Element,
     HTML*Element), otherwise HTMLElement for XHTML, else SVGElement. Attributes
     passed are the attributes; the caller's attrib and nsmap are not modified.
     New nodes belong to the creating document (none for SVGParser) and are in
     no tree; create_sub_element inserts at the given index, or appends. The
     content type of a document is image/svg+xml, application/xhtml+xml or
     application/xml by the namespace it is created with; created documents
     are at about:blank and empty without a root name. link, style, media and
     SVG elements reflect as_, cross_origin, href, hreflang, integrity, media,
     referrer_policy, rel, type, title, lang, id, class_name and the token
     lists rel_list, sizes and class_list, in both directions; zoom_and_pan is
     1 without attribute or for disable, 2 for magnify, else 0, and setting
     anything but 1 or 2 changes nothing.''',
     ['inputs', 'histories'],
     '''all of 12 namespaces x 73 names (x maps of prefixes); the same names
     through each factory x 6 nsmaps x attributes; every element name x
     namespace; every index; all sequences of 2 (3) writes to reflected
     properties and attributes''',
     '''tests create a few elements of expected names''',
     ['svgpy/element.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/utils.py',
      'svgpy/base.py'],
     [('SVGParser.create_element_ns', 'svgpy/element.py'),
      ('QualifiedName', 'svgpy/utils.py'),
      ('SVGElementClassLookup', 'svgpy/element.py')])

prop('C29', 'Fonts are selected by CSS and measured as their TrueType files say',
     '''Font(element).face is the face CSS Fonts 3 selects by the computed
     font properties (own or inherited): of the faces of a family of the list
     (an installed one by any of its names, or serif, sans-serif, monospace),
     narrowed by font-stretch (nearest width on the preferred side first),
     then font-style (italic: italic, oblique, normal; oblique: oblique,
     italic, normal; normal: normal, oblique, italic), then font-weight (400
     and 500: each other, lighter, heavier; below 400: lighter, then heavier;
     above 500: heavier, then lighter); a family whose face lacks a glyph for
     a character other than white space of the element's own text gives way to
     the next one, at last to the default sans-serif font. The face is scaled
     to the font size; 1ex is the height of its x, 1ch the advance of its 0
     (within a pixel), and n ex or ch are n times that. An FTFace opened from
     a file or from memory has the family, style, glyph count, units per em,
     ascender, descender, height, maximal advance, bounding box, underline and
     style flags of the file; maps every code point to the glyph the file's
     Unicode character map names (0: none); has its kerning pairs; and, loaded
     unscaled, every glyph has the advance and outline of the file: points,
     on-curve tags, contours, control and bounding box, orientation. Moving,
     transforming and reversing an outline does that to its points;
     decompose() (with shift and delta) and PathParser.from_glyph() (no
     matrix; units of 1/64, y axis down) yield the same closed curves. The
     FTMatrix operations post-multiply what they are named after (angles
     clockwise on an upward y axis), in place for the _self forms and *=, on a
     new object otherwise; inverse() inverts.''',
     ['inputs', 'histories'],
     '''9 families x 9 stretches x 3 styles x 11 weights; 7 family lists x 95
     texts (glyphs missing from one or all families, white space anywhere); all 22
     installed files: every code point, kerning pair and glyph; outline edits to length 2 (3); 65
     font sizes x 3 families; FTMatrix operation sequences to length 3 (4)''',
     '''tests look at one glyph of one file, at two matrices and at ex, ch of
     one size; no test asserts which face is selected''',
     ['svgpy/core.py', 'svgpy/fontconfig.py', 'svgpy/freetype.py',
      'svgpy/path.py'],
     [('FontManager._find_face', 'svgpy/core.py'),
      ('FTFace', 'svgpy/freetype.py'), ('FTOutline', 'svgpy/freetype.py'),
      ('PathParser.from_glyph', 'svgpy/path.py')],
     technique=BOTH)

prop('C30', 'Text is ordered, segmented and shaped as Unicode and the font say',
     '''UBiDi.set_para() with a default level gives every string the paragraph
     level, logical runs with their levels, visual runs, logical and visual
     indices and direction of UAX #9 (no explicit controls), counted in UTF-16
     units, however often the object is reused; visual_iter() and
     write_reordered() yield the characters in visual order (mirrored,
     reversed where the option says so), get_text() the text.
     UBreakIterator's character, word, line and sentence boundaries are those
     of UAX #29 and UAX #14: iterating, in reverse too, yields the segments,
     whole characters outside the BMP included, and first, last, next,
     previous, current move over them as UTF-16 offsets, also after set_text()
     (next() and previous() return UBRK_DONE at the ends). ULocale names the
     language and script of a locale id in any letter case with - or _, and
     the layout direction. HBFeature strings (tag, +/-, [start:end], value)
     are parsed to the fields they say, None when malformed, and written
     back to the same fields; HBDirection, HBScript and HBLanguage round-trip.
     An HBBuffer holds the code points added as utf8, utf16 or utf32 and the
     cluster of each in code units of that encoding; reverse, reverse_range,
     clear_contents, reset and guess_segment_properties (script and direction
     of the first character with a script) do what they say; shape() with
     ligatures and kerning off yields the glyph of every character and its
     advance, in reverse for rtl. An HBBlob holds its bytes, HBFace the units
     per em and glyph count, HBFont at a scale the scaled advances.''',
     ['inputs', 'histories'],
     '''bidi: 13 classes to length 4 (5), 6 classes to length 7 (8), 2 defaults;
     boundaries: 13 classes to length 5 (6) (character, word), 8 or 9 to 6 (7)
     (line, sentence); iterator move histories to length 5 (6); locales,
     features, directions, scripts; buffers and shaping: 7 characters to
     length 3 (4) x encodings x 3 fonts x 3 sizes x 2 directions''',
     '''tests look at a handful of sentences; none holds combining marks,
     surrogates, UTF-16 or UTF-32 input, or moves an iterator both ways''',
     ['svgpy/icu.py', 'svgpy/harfbuzz.py'],
     [('UBiDi', 'svgpy/icu.py'), ('UBreakIterator', 'svgpy/icu.py'),
      ('HBBuffer', 'svgpy/harfbuzz.py'), ('HBFeature', 'svgpy/harfbuzz.py')],
     technique=BOTH)

prop('C31', 'Native objects stay usable for as long as they are held',
     '''Every object of the FreeType, HarfBuzz and ICU bindings keeps reading
     the same for as long as it is held, whatever becomes of the object it was
     made from: an HBBlob without its bytes (default or
     HB_MEMORY_MODE_DUPLICATE), an HBFace without its blob, an HBFont or
     HBFTFont without its face (also after set_face), an HBFTFace without the
     FTFace, the face of get_face() without the font and the font after that
     face is dropped, an FTFace opened from memory without its bytes, glyph
     slots, outlines, metrics, bitmaps, sizes and character maps without their
     face, shaped buffers and their glyph infos and positions without the
     font, UBiDi and UBreakIterator without the text they were given. In
     whichever order objects are dropped, made again and used, no process
     dies, nor at exit.''',
     ['histories'],
     '''all histories of up to 3 (4) droppings and makings in 10 families of 3 to 5
     objects, every one in a process of its own whose freed memory is
     overwritten; all live objects are read after every step''',
     '''tests hold every object until the end of the test; use after free
     shows only when memory is reused''',
     ['svgpy/freetype.py', 'svgpy/harfbuzz.py', 'svgpy/icu.py'],
     [('FTFace.new_memory_face', 'svgpy/freetype.py'),
      ('FTFace.glyph', 'svgpy/freetype.py'),
      ('HBBlob.create', 'svgpy/harfbuzz.py'),
      ('HBFont.get_face', 'svgpy/harfbuzz.py'),
      ('UBreakIterator.set_text', 'svgpy/icu.py')],
     technique=BOTH)

prop('C32', 'data: URLs, media types, headers and style text are read as written',
     '''load() of a data: URL (a string or URL; scheme in any case, fragment
     ignored) returns the data it holds and a Content-Type header: text,
     percent-decoded and decoded by the charset parameter (UTF-8 without one),
     or with ;base64 (any case; padding optional, white space ignored) the
     bytes; the type is text/plain when omitted (with charset US-ASCII when
     there are no parameters and no base64), parameters are kept in order; a
     URL without a comma gives None and no header. SVGDOMImplementation.parse()
     of such a URL yields the document's text unchanged for every charset and
     XML declaration. get_content_type() finds the header in any letter case
     and returns the type under None and each parameter (case-insensitive
     name, quotes removed), None without the header. CaseInsensitiveMapping is
     a mutable mapping whose string keys ignore case (other keys are
     themselves) and which keeps the first spelling and place of a key.
     style_to_dict() reads declarations (names other than custom properties
     lower-cased; semicolons and colons inside strings, functions and comments
     do not separate; the last declaration of a name wins unless an earlier
     one is !important and it is not), dict_to_style() writes them sorted so
     that reading it back gives the same; remove_quotes() strips one matching
     pair.''',
     ['inputs', 'histories'],
     '''11 media types x 3 percent-encodings x all texts over 31 characters to
     length 2 (3); x 15 base64 spellings x byte strings; documents in 4
     charsets; headers with up to 2 parameters; mapping histories to length 3
     (4); declaration lists of up to 2 (3) over 78 declarations''',
     '''tests load three data: URLs, all ASCII, and set and delete one key of a
     mapping''',
     ['svgpy/utils.py', 'svgpy/window.py'],
     [('load', 'svgpy/utils.py'), ('get_content_type', 'svgpy/utils.py'),
      ('CaseInsensitiveMapping', 'svgpy/utils.py'),
      ('style_to_dict', 'svgpy/utils.py'),
      ('SVGDOMImplementation.parse', 'svgpy/window.py')],
     technique=BOTH)
