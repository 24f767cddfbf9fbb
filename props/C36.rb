# C36: the description of a C++ header becomes the types it declares.
# facet: import 2500 40000
# facet: load 150 3000
# facet: clang 150 2500
# facet: names 6000 100000
# rule: import: random headers (namespaces, structures with bases, nested types, template instances, enumerations, typedefs, arrays, pointers, const, std::vector, std::string, opaques, documentation and @meta, and what cannot be represented: private or virtual members, references, cycles of pointers, bit-fields, unknown numbers), written as source text and as the description castxml gives of it, its nodes in any order; the imported registry against a model of the declarations. load: several such headers loaded through a stand-in for castxml or gccxml, one by one or together, with options and failures. clang: the same through a stand-in for typelib-clang-tlb-importer, which is given headers, options and the opaques, and gives a registry or fails. names: C++ type names against the list of parts they were made of. Non-trivial: at least three declarations imported (import), at least two headers or a failure (load), at least two parts (names).
require 'gen'
require 'set'
require 'tmpdir'
require 'fileutils'
require 'typelib/gccxml'
Typelib.logger.level = Logger::FATAL
module C36
    FUND = { 'bool' => ['/bool', 1], 'char' => ['/int8_t', 1], 'signed char' => ['/int8_t', 1], 'unsigned char' => ['/uint8_t', 1], 'short int' => ['/int16_t', 2], 'short unsigned int' => ['/uint16_t', 2],
             'int' => ['/int32_t', 4], 'unsigned int' => ['/uint32_t', 4], 'long int' => ['/int64_t', 8], 'long unsigned int' => ['/uint64_t', 8], 'long long int' => ['/int64_t', 8], 'long long unsigned int' => ['/uint64_t', 8],
             'float' => ['/float', 4], 'double' => ['/double', 8], 'wchar_t' => ['/int32_t', 4] }
    BAD_FUND = ['__int128', 'decltype(nullptr)', 'long double']
    # kind: struct, enum, typedef, incomplete. scope: list of namespaces, or a declaration
    D = Struct.new(:kind, :scope, :name, :args, :file, :line, :doc, :metas, :fields, :bases, :size, :symbols, :of, :bad, :tag, :xmlline, :access, :opaque, :mark, keyword_init: true) do
        def ==(o) equal?(o) end
        def eql?(o) equal?(o) end
        def hash; object_id end
        def inspect; "#{kind} #{mark}" end
    end
    F = Struct.new(:name, :type, :offset, :access, :line, :doc, :metas, :bits)
    B = Struct.new(:decl, :offset, :access, :virtual)
    # Types: [:fund, name] [:decl, D] [:array, T, n] [:ptr, T] [:cv, T, const, volatile] [:string] [:vector, T] [:ref, T]
    class Header
        attr_reader :decls, :xml
        attr_accessor :opaques, :cxx11, :dialect
        def initialize; @decls = []; @opaques = Set.new; @xml = []; @ids = {}; @count = 0; @rep = {}.compare_by_identity end
        # Names as C++ prints them
        def scope_text(d) d.scope.kind_of?(Array) ? d.scope : scope_text(d.scope) + [short(d.scope)] end
        def short(d) d.name + (d.args ? tmpl(d.args.map { |a| a.kind_of?(Integer) ? "#{a}" : cxx(a) }) : "") end
        def tmpl(l) t = l.join(", "); "<#{t}#{' ' if t[-1] == '>'}>" end
        def cxx(t)
            case t[0]
            when :fund then t[1]
            when :decl then t[1].kind == :typedef ? cxx(t[1].of) : (scope_text(t[1]) + [short(t[1])]).join("::")
            when :array then "#{cxx(t[1])}[#{t[2]}]"
            when :ptr then "#{cxx(t[1])} *"
            when :ref then "#{cxx(t[1])} &"
            when :cv then cxx(t[1])
            when :string then "std::#{'__cxx11::' if cxx11}basic_string<char>"
            when :vector then c = cxx(t[1]); "std::vector" + tmpl([c, "std::allocator" + tmpl([c])])
            end
        end
        # Name in typelib; the declaration itself (without following typedefs)
        def own(d)
            scope = d.scope.kind_of?(Array) ? d.scope.map { |x| "/#{x}" }.join : own(d.scope)
            "#{scope}/#{d.name}" + (d.args ? "<#{d.args.map { |a| a.kind_of?(Integer) ? a.to_s : name(a) || "/#{cxx(a).gsub('::', '/')}" }.join(",")}>" : "")
        end
        def name(t)
            case t[0]
            when :fund then FUND[t[1]] ? FUND[t[1]][0] : t[1] == 'void' ? '/nil' : nil
            when :decl then t[1].opaque ? own(t[1]) : t[1].kind == :typedef ? name(t[1].of) : target(t[1])
            when :array then (n = name(t[1])) && "#{n}[#{t[2]}]"
            when :ptr then (n = name(t[1])) && "#{n}*"
            when :cv then name(t[1])
            when :string then '/std/string'
            when :vector then (n = name(t[1])) && "/std/vector<#{n}>"
            end
        end
        # An opaque typedef stands for the type it names
        def target(d)
            td = decls.find { |x| x.opaque && x.kind == :typedef && strip(x.of)[1].equal?(d) }
            td ? own(td) : own(d)
        end
        def strip(t) t[0] == :decl && t[1].kind == :typedef && !t[1].opaque ? strip(t[1].of) : t end
        def size(t)
            case t[0]
            when :fund then (FUND[t[1]] || [0, 16])[1]
            when :decl then t[1].kind == :typedef ? size(t[1].of) : t[1].kind == :enum ? 4 : t[1].size || 0
            when :array then size(t[1]) * t[2]
            when :ptr, :ref then 8
            when :cv then size(t[1])
            when :string then 32
            when :vector then 24
            end
        end
        # Can typelib represent it
        def ok?(t, stack = [])
            case t[0]
            when :fund then FUND.has_key?(t[1]) || t[1] == 'void'
            when :decl then decl_ok?(t[1], stack)
            when :array, :ptr, :cv then ok?(t[1], stack)
            when :vector then !pointer?(t[1]) && ok?(t[1], stack)
            when :string then true
            when :ref then false
            end
        end
        # vectors of pointers and such have no definition to be found by name
        def pointer?(t) t[0] == :ptr || t[0] == :ref || t[0] == :array || (t[0] == :cv && pointer?(t[1])) end
        def opaque?(t) d = strip(t)[1]; strip(t)[0] == :decl && (d.opaque || (!d.opaque && own(d) != target(d))) end
        # Such names are those of the internals of compilers and libraries
        def private_name?(d) d.name.start_with?("__") end
        def decl_ok?(d, stack)
            return true if d.opaque || (d.kind != :typedef && own(d) != target(d))
            return false if stack.any? { |x| x.equal?(d) }
            return false if d.access && d.access != 'public'
            return false if d.kind == :incomplete
            return false if d.kind != :typedef && private_name?(d) && !d.args
            return ok?(d.of, stack) if d.kind == :typedef
            return !d.bad && !d.symbols.empty? if d.kind == :enum
            st = stack + [d]
            return false if d.bad || empty?(d)
            d.bases.all? { |b| empty?(b.decl) || (b.access == 'public' && b.virtual == '0' && !opaque?([:decl, b.decl]) && decl_ok?(b.decl, st)) } &&
                d.fields.all? { |f| f.access == 'public' && !f.bits && ok?(f.type, st) }
        end
        def empty?(d) d.kind == :struct && !private_name?(d) && d.fields.empty? && !d.bad && !opaque?([:decl, d]) && (d.access || 'public') == 'public' && d.bases.all? { |b| empty?(b.decl) } end
        def lineage(d) [d] + d.bases.flat_map { |b| lineage(b.decl) } end
        def all_fields(d) # [name, offset, type, declaring file, line, doc, its metadata]
            d.bases.reject { |b| empty?(b.decl) }.flat_map { |b| all_fields(b.decl).map { |n, o, *r| [n, o + b.offset, *r] } } + d.fields.map { |f| [f.name, f.offset, f.type, d.file, f.line, f.doc, f.metas] }
        end
        # The XML
        def id(key)
            @ids[key] ||= "_#{@count += 1}"
        end
        def esc(s) s.gsub("&", "&amp;").gsub("<", "&lt;").gsub(">", "&gt;").gsub("\"", "&quot;") end
        def node(tag, attrs, children = [])
            txt = ->(t, a, close) { "  <#{t} " + a.compact.map { |k, v| "#{k}=\"#{esc(v.to_s)}\"" }.join(" ") + close }
            @xml << (children.empty? ? [txt[tag, attrs, "/>\n"]] : [txt[tag, attrs, ">\n"]] + children.map { |t, a| "  " + txt[t, a, "/>\n"] } + ["  </#{tag}>\n"])
        end
        def root; once(:root) { |i| node('Namespace', id: i, name: "::", members: "_999") } end
        def once(key) # emits the node at its first use
            return @ids[key] if @ids[key]
            i = id(key); yield i; i
        end
        def ns(path) path.empty? ? root : once([:ns, path]) { |i| node('Namespace', id: i, name: path.last, context: ns(path[0..-2])) } end
        def file(name) once([:file, name]) { |i| node('File', id: i, name: name) } end
        def scope_id(d) d.scope.kind_of?(Array) ? ns(d.scope) : ref([:decl, d.scope]) end
        def loc(d) { location: "#{file(d.file)}:#{d.xmlline}", file: file(d.file), line: d.xmlline } end
        def ref(t)
            key = t[0] == :decl ? [:decl, t[1].mark] : t[0] == :fund ? t : [t[0], *t[1..-1].map { |x| x.kind_of?(Array) ? ref(x) : x }]
            once(key) do |i|
                case t[0]
                when :fund then node('FundamentalType', id: i, name: t[1], size: size(t) * 8, align: 8)
                when :array then node('ArrayType', id: i, min: 0, max: "#{t[2] - 1}#{'u' if dialect == :gccxml}", type: ref(t[1]))
                when :ptr then node('PointerType', id: i, type: ref(t[1]), size: 64, align: 64)
                when :ref then node('ReferenceType', id: i, type: ref(t[1]), size: 64, align: 64)
                when :cv then node('CvQualifiedType', id: i, type: ref(t[1]), const: (t[2] ? 1 : nil), volatile: (t[3] ? 1 : nil))
                when :string
                    scope = ns(cxx11 ? %w{std __cxx11} : %w{std})
                    node('Class', id: i, name: "basic_string<char>", context: scope, file: file("/nowhere/basic_string.h"), line: 100, location: "f:100", members: "_99990", size: 256, align: 64)
                    node('Typedef', id: id([:string_typedef]), name: "string", type: i, context: ns(%w{std}), file: file("/nowhere/stringfwd.h"), line: 74, location: "f:74")
                when :vector
                    ref(t[1]) if !pointer?(t[1]) # its definition
                    node('Class', { id: i, name: "vector" + cxx(t)[11..-1], context: ns(%w{std}), file: file("/nowhere/stl_vector.h"), line: 216, location: "f:216", members: "_99991 _99992", size: 192, align: 64 },
                         [['Base', type: "_99993", access: 'protected', virtual: 0, offset: 0]])
                when :decl then decl(t[1], i)
                end
            end
        end
        def decl(d, i)
            (d.args || []).each { |a| ref(a) if a.kind_of?(Array) }   # instances are there for what they are made of, too
            common = { id: i, name: short(d), context: scope_id(d), access: d.access, **loc(d) }
            case d.kind
            when :typedef then node('Typedef', common.merge(type: ref(d.of)))
            when :incomplete then node(d.tag, common.merge(incomplete: 1))
            when :enum then node('Enumeration', common.merge(size: (d.bad || 4) * 8, align: 32), d.symbols.map { |s, v| ['EnumValue', { name: s, init: v }] })
            when :struct
                members = []
                d.fields.each_with_index do |f, j|
                    # the type of a field may be this structure itself: its id is known already
                    members << id([:field, d.mark, j])
                    node('Field', { id: members.last, name: f.name, type: ref(f.type), context: i, access: f.access, location: "#{file(d.file)}:#{f.line}", file: file(d.file), line: f.line, offset: f.offset * 8, bits: f.bits })
                end
                members << id([:ctor, d.mark]); node('Constructor', { id: members.last, name: d.name, context: i, access: 'public', inline: 1 })
                if d.bad == :virtual
                    members << id([:method, d.mark]); node(%w{Method Destructor OperatorMethod}[d.line % 3], { id: members.last, name: "m", returns: "_99994", context: i, access: 'public', virtual: 1 })
                end
                members.rotate!(d.line)
                node(d.tag, common.merge(members: members.join(" "), size: d.size * 8, align: 8), d.bases.map { |b| ['Base', { type: ref([:decl, b.decl]), access: b.access, virtual: b.virtual, offset: b.offset }] })
            end
        end
        def text(order) "<?xml version=\"1.0\"?>\n<GCC_XML version=\"0.9.0\" cvs_revision=\"1.139\">\n" + order.map { |i| @xml[i].join }.join + "</GCC_XML>\n" end
    end
    def c36_words; pick(["a", "value of the thing", "\u9999 \u12b5", "see x < y", "100% @todo", "int f;", "it's \"quoted\""]) end
    # A comment: [source lines, documentation]
    def c36_doc(indent, metas)
        text = Array.new(range(1, 3)) { |i| weighted(5, 1) == 1 && i > 0 ? "" : ("  " * (i > 0 ? draw(2) : 0)) + c36_words }
        text.pop while text.last == ""
        if flip(1, 3)
            k, v = pick(%w{unit range k}), pick(["m/s", "0 1", "x"]); metas << [k, v]; text << "@meta #{k} #{v}"
        end
        src = case draw(6)
              when 0 then text.map { |l| l.empty? ? "//" : "// #{l}" }
              when 1 then text.map { |l| l.empty? ? "///" : "/// #{l}" }
              when 2 then ["/* #{text[0]}"] + text[1..-1].map { |l| l.empty? ? " *" : " * #{l}" } + [" */"]
              when 3 then text.size == 1 ? [pick(["/** #{text[0]} */", "/* #{text[0]}*/", "/**#{text[0]} **/"])] : text.map { |l| l.empty? ? "////" : "//// #{l}" }
              when 4 then ["/**"] + text[0..-2].map { |l| l.empty? ? " *" : " * #{l}" } + [" * #{text[-1]} */"]
              else ["/**"] + text.map { |l| l.empty? ? " *" : " * #{l}" } + [flip ? " */" : " **/"]
              end
        [src.map { |l| indent + l }, text.join("\n")]
    end
    # A type for fields, elements, typedefs. only: declarations that may be used by value
    def c36_type(h, depth = 0)
        case weighted(12, 12, 4, 3, 4, 2, 4, 1, 1)
        when 0 then [:fund, pick(C36::FUND.keys)]
        when 1
            l = h.decls.reject { |d| d.kind == :incomplete || c36_hidden(d) || (d.kind == :struct && !d.size) || (!h.decl_ok?(d, []) && !flip(1, 6)) }
            l.empty? ? [:fund, 'int'] : [:decl, pick(l)]
        when 2 then depth > 2 ? [:fund, 'double'] : [:array, c36_type(h, depth + 1), range(1, 4)]
        when 3 then [:ptr, c36_pointee(h, depth)]
        when 4 then depth > 2 ? [:fund, 'float'] : c36_cv(c36_type(h, depth + 1))
        when 5 then [:string]
        when 6 then [:vector, c36_element(h, depth)]
        when 7 then flip(1, 2) ? [:fund, pick(C36::BAD_FUND)] : [:fund, 'int']
        when 8 then flip(1, 2) ? [:ref, [:fund, 'int']] : [:fund, 'double']
        end
    end
    # names that other declarations cannot use
    def c36_hidden(d) d.kind == :typedef && %w{private protected}.include?(d.access) end
    def c36_cv(t) t[0] == :cv || t[0] == :array || t[0] == :ref ? t : [:cv, t, *pick([[true, false], [true, true], [false, true]])] end
    def c36_pointee(h, depth)
        case draw(4)
        when 0 then (l = h.decls.reject { |d| c36_hidden(d) }).empty? ? [:fund, 'void'] : [:decl, pick(l)]   # self, incomplete or earlier
        when 1 then [:fund, pick(%w{void char int})]
        else x = c36_type(h, depth + 1); x[0] == :ref ? [:fund, 'int'] : x
        end
    end
    def c36_element(h, depth)
        x = !h.decls.empty? && h.decls.last.kind == :struct && flip(1, 8) ? [:decl, h.decls.last] : c36_type(h, depth + 2)
        x = x[1] while x[0] == :cv
        x[0] == :ref || x[0] == :array ? [:fund, 'int'] : h.cxx(x) == 'bool' ? [:fund, 'char'] : x[0] == :decl && h.cxx(x) =~ /\[|\*/ ? [:fund, 'int'] : x
    end
    # Scopes and nested types
    def c36_scope(h)
        l = h.decls.select { |d| d.kind == :struct && d.size && !d.opaque && h.target(d) == h.own(d) }
        !l.empty? && flip(1, 5) ? pick(l) : pick([[], %w{ns}, %w{ns sub}, %w{sub}, %w{other ns}, %w{my__ns}])
    end
    # Adds a declaration and its text
    def c36_declare(h, texts, main, other)
        d = C36::D.new(kind: pick(%i{struct struct struct struct enum enum typedef typedef incomplete}), scope: c36_scope(h), file: flip(1, 5) ? other : main, mark: h.decls.size, fields: [], bases: [], symbols: {}, tag: pick(%w{Struct Class}))
        d.access = d.scope.kind_of?(Array) ? nil : flip(1, 4) ? pick(%w{private protected}) : 'public'
        d.name = pick(%w{A B C D A B C D Tmpl Tmpl my__a _b c_ __e})
        d.args = Array.new(range(1, 2)) { flip(1, 3) ? pick([3, -1, 12]) : c36_arg(h) } if d.name == 'Tmpl' && d.kind == :struct
        d.name += "#{d.mark}" if h.decls.any? { |x| h.own(x) == h.own(d) || h.scope_text(x) + [h.short(x)] == h.scope_text(d) + [h.short(d)] }
        l = texts[d.file]
        draw(3).times { l << "" } if !l.empty?
        d.metas = []
        if d.kind != :incomplete && flip
            src, d.doc = c36_doc("", d.metas)
            if flip(1, 30) then src.map! { |x| x.b + (x =~ %r{\A(//|/\*)} && x !~ %r{\*/} ? " caf\xe9".b : "".b) }; d.doc = :any end # not UTF-8
            l.concat(src); draw(3).times { l << "" } if flip(1, 3)
        end
        d.line = d.xmlline = l.size + 1
        case d.kind
        when :typedef then d.of = c36_type(h); l << "typedef something #{d.name};"; h.decls << d
        when :incomplete then l << "struct #{d.name};"; h.decls << d
        when :enum
            range(0, 4).times { |j| d.symbols["#{d.name.upcase}_#{j}"] = pick([j, j, j, 10 * j, -1 - j, -2**31, 2**31 - 1]) }
            d.symbols = d.symbols.to_a.uniq { |_, v| v }.to_h
            if flip(1, 8) then d.bad = pick([1, 2, 8])
            elsif flip(1, 12) then d.bad = 4; d.symbols["#{d.name.upcase}_BIG"] = pick([2**31, 2**32 - 1])
            end
            c36_open(l, d, "enum #{d.name}"); l << "  #{d.symbols.keys.join(", ")}" << "};"; h.decls << d
        when :struct
            h.decls << d
            c36_open(l, d, "#{d.tag.downcase} #{d.name}")
            off = 0; d.bad = :virtual if flip(1, 25)
            (flip(1, 3) ? range(1, 2) : 0).times do
                b = pick(h.decls.select { |x| x.kind == :struct && x.size && (h.lineage(x) & d.bases.flat_map { |y| h.lineage(y.decl) }).empty? } + [nil])
                next if !b || (!h.decl_ok?(b, []) && !flip(1, 4))
                d.bases << C36::B.new(b, off, flip(1, 20) ? pick(%w{private protected}) : 'public', flip(1, 20) ? '1' : '0'); off += h.empty?(b) ? 0 : b.size
            end
            # virtual and private bases are only of interest when there is something in them
            d.bases.each { |b| b.access, b.virtual = 'public', '0' if h.empty?(b.decl) }
            range(flip(1, 8) ? 0 : 1, 4).times do |j|
                t = c36_type(h); off += pick([0, 0, 1, 4])
                f = C36::F.new("#{pick(%w{x y data m_})}#{d.mark}_#{j}", t, off, flip(1, 50) ? pick(%w{private protected}) : 'public'); f.metas = []
                if flip(1, 40) && h.strip(t)[0] == :fund && t[0] != :cv then f.bits = pick([1, 3, 7]) end
                draw(2).times { l << "" }
                if flip(1, 3)
                    src, f.doc = c36_doc("    ", f.metas); l.concat(src); l << "" if flip(1, 5)
                end
                f.line = l.size + 1; l << "    something #{f.name};"; d.fields << f; off += h.size(t)
            end
            d.size = [off + pick([0, 0, 3, 8]), 1].max
            l << "};"
        end
        # opaques
        if flip(1, 10) && d.access != 'private' && d.access != 'protected' && h.own(d) !~ /</ && (d.kind == :struct || d.kind == :typedef)
            x = h.strip(d.of || [])
            if d.kind == :struct || (x[0] == :decl && x[1].kind == :struct && !x[1].opaque && (x[1].access || 'public') == 'public' && h.target(x[1]) == h.own(x[1]) && h.decls.none? { |y| y.bases.any? { |b| b.decl == x[1] } || y.scope == x[1] || c36_uses(y, x[1]) || (y != d && y.kind == :typedef) })
                d.opaque = true; h.opaques << h.own(d)
            end
        end
    end
    # Does the name of a declaration mention another one
    def c36_uses(y, d) (y.args || []).any? { |a| a.kind_of?(Array) && c36_mentions(a, d) } end
    def c36_mentions(t, d) t[0] == :decl ? t[1] == d || (t[1].of && c36_mentions(t[1].of, d)) || c36_uses(t[1], d) : t[1].kind_of?(Array) && c36_mentions(t[1], d) end
    def c36_arg(h)
        l = h.decls.select { |x| %i{struct enum}.include?(x.kind) && x.size != nil || x.kind == :enum }.select { |x| h.own(x) !~ /</ || h.decl_ok?(x, []) }
        case weighted(3, 3, 1, 1)
        when 0 then [:fund, pick(C36::FUND.keys - ['bool'])]
        when 1 then l.empty? ? [:fund, 'int'] : [:decl, pick(l)]
        when 2 then [:string]
        else [:vector, [:fund, pick(%w{int double})]]
        end
    end
    def c36_open(l, d, text)
        if flip
            l << text + (flip ? " {" : "{")
        else
            l << text; draw(2).times { l << "" }; l << (flip ? "{" : "  {")
            d.xmlline = l.size if flip
        end
    end
    def c36_squeeze(s) s.gsub(/\s+/, "") end
    def c36_documented(md, doc, metas, what)
        got = md.get('doc')
        return if doc == :any
        equal(got.map { |x| x.lines.map(&:rstrip) }, doc ? [doc.lines.map(&:rstrip)] : [], "documentation of #{what}")
        %w{unit range k}.each { |k| equal(md.get(k), (metas || []).select { |a, _| a == k }.map(&:last).uniq.sort, "@meta #{k} of #{what}") }
    end
    # C++ names of pointers and arrays, for all but numbers
    def c36_derived_name(t, what)
        return if !(t <= Typelib::ArrayType || t <= Typelib::PointerType)
        base = c36_derived_name(t.deference, what)
        base ||= t.deference.metadata.get('cxxname')[0] if t.deference <= Typelib::CompoundType || t.deference <= Typelib::EnumType
        return if !base
        n = "#{base}#{t <= Typelib::ArrayType ? "[#{t.length}]" : "*"}"
        equal(t.metadata.get('cxxname'), [n], "cxxname of #{t.name}, #{what}")
        n
    end
    def c36_check(h, d, reg)
        n = h.own(d); what = "#{d.kind} #{n}"
        if !h.decl_ok?(d, [])
            check(!reg.include?(n)) { "#{what} cannot be represented, but is imported as #{reg.get(n).to_xml}" } if d.kind != :typedef || h.name(d.of) != n
            return false
        end
        return true if h.target(d) != n   # known by the name of its opaque typedef
        if d.kind == :typedef && !d.opaque
            t = h.name(d.of)
            if reg.include?(t) && !h.private_name?(d) && !(h.strip(d.of)[0] == :fund || t == '/std/string' && false)
                check(reg.include?(n)) { "#{what} to #{t} is not imported" }
                equal(reg.get(n).name, t, "target of #{what}")
                return true
            end
            return false
        end
        check(reg.include?(n)) { "#{what} is not imported" }
        t = reg.get(n); equal(t.name, n, "name of #{what}")
        cxx = c36_squeeze("::" + (h.scope_text(d) + [h.short(d)]).join("::"))
        equal(t.metadata.get('cxxname').map { |x| c36_squeeze(x) }, [cxx], "cxxname of #{what}")
        equal(t.metadata.get('source_file_line'), ["#{d.file}:#{d.line}"], "location of #{what}")
        c36_documented(t.metadata, d.doc, d.metas, what)
        if d.opaque
            equal([t.opaque?, t.metadata.get('opaque_is_typedef')], [true, d.kind == :typedef ? ['1'] : []], "#{what} (opaque)")
        elsif d.kind == :enum
            check(t <= Typelib::EnumType) { "#{what} is #{t.superclass}" }
            equal(t.keys, d.symbols, "symbols of #{what}")
        else
            check(t <= Typelib::CompoundType) { "#{what} is #{t.superclass}" }
            equal(t.size, d.size, "size of #{what}")
            want = h.all_fields(d)
            equal(t.each_field.map { |f, ft| [f, t.offset_of(f), ft.name] }.sort, want.map { |f, o, ft| [f, o, h.name(ft)] }.sort, "fields of #{what}")
            want.each do |f, _, ft, file, line, doc, metas|
                c36_derived_name(t[f], "type of #{what}.#{f}")
                c36_documented(t.field_metadata[f], doc, metas, "#{what}.#{f}")
                equal(t.field_metadata[f].get('source_file_line'), ["#{file}:#{line}"], "location of #{what}.#{f}")
            end
            equal(t.metadata.get('base_classes'), d.bases.reject { |b| h.empty?(b.decl) }.map { |b| h.own(b.decl) }.uniq.sort, "bases of #{what}")
        end
        true
    end
end
PBT::DSL.include C36
PBT.facet("import") do
    Dir.mktmpdir do |dir|
        dir = File.realpath(dir)
        sub = pick(["", "", "", "a=b", "a&b", "with space", "v1:2"]); dir = File.join(dir, sub) if sub != ""
        FileUtils.mkdir_p(dir)
        main, other = "#{dir}/main.hh", "#{dir}/other.hh"
        texts = { main => [], other => ["#pragma once"] }
        h = C36::Header.new; h.cxx11 = flip; h.dialect = flip(1, 4) ? :gccxml : :castxml
        texts[main] << "#include <other.hh>" if flip
        range(3, 6 + size(7)).times { c36_declare(h, texts, main, other) }
        trailer = pick([[], [], [""], ["// end of file"], ["/* end */", ""]])
        texts[main].concat(trailer)
        nl = flip(1, 8) ? "\r\n" : "\n"
        texts.each { |f, l| File.binwrite(f, l.map { |x| (x + nl).b }.join) }
        h.decls.each { |d| h.ref([:decl, d]) }
        h.file(main)
        seed = Random.new(draw(1 << 16))
        order = flip(1, 3) ? (0...h.xml.size).to_a : (0...h.xml.size).to_a.shuffle(random: seed)
        xml = h.text(order)
        note { xml + "\n" + File.read(main).scrub + "\n-- opaques #{h.opaques.to_a}" }
        loader = Typelib::GCCXMLLoader.new; loader.opaques = h.opaques.dup
        reg = loader.load([main], xml)
        ok = h.decls.select { |d| d.file == main }.count { |d| c36_check(h, d, reg) }
        nontrivial if ok >= 3
        # nothing else
        known = h.decls.select { |d| h.decl_ok?(d, []) }.map { |d| h.own(d) }
        reg.each do |t|
            next if t <= Typelib::ArrayType || t <= Typelib::PointerType || t <= Typelib::ContainerType || t <= Typelib::NumericType || t.name == '/nil'
            check(known.include?(t.name)) { "#{t.name} is imported, but nothing declares it" }
        end
        # what is in other files is as it should be too
        h.decls.select { |d| d.file == other && h.decl_ok?(d, []) && reg.include?(h.own(d)) && !d.opaque }.each { |d| c36_check(h, d, reg) }
    end
end

# The importers run castxml, or gccxml: stood in by a script that prints the description given for the file
C36::TOOLS = { 'castxml' => <<'SH', 'gccxml' => <<'SH2' }
#!/bin/sh
for a; do f=$a; done
case " $* " in *" -E "*) cat "$f"; exit 0;; esac
printf '%s\n' "$@" > "$f.args"
test -f "$f.fails" && exit 3
cat "$f.xml"
SH
#!/bin/sh
for a; do case "$a" in -fxml=*) out=${a#-fxml=};; -*) ;; *) f=$a;; esac; done
printf '%s\n' "$@" > "$f.args"
test -f "$f.fails" && exit 3
cat "$f.xml" > "$out"
SH2
C36::PATH = ENV['PATH']
PBT.facet("load") do
    Dir.mktmpdir do |dir|
        dir = File.realpath(dir); n = range(1, 3); want = {}
        FileUtils.mkdir("#{dir}/bin"); C36::TOOLS.each { |x, t| File.write("#{dir}/bin/#{x}", t); File.chmod(0755, "#{dir}/bin/#{x}") }
        ENV['PATH'] = "#{dir}/bin:#{C36::PATH}"
        files = Array.new(n) { |i| "#{dir}/h#{i}.hh" }
        files.each_with_index do |f, i|
            h = C36::Header.new; int = pick(%w{int double char}); h.dialect = :castxml
            common = C36::D.new(kind: :struct, scope: %w{ns}, name: 'Common', file: files[0], line: 1, xmlline: 1, fields: [C36::F.new('x', [:fund, 'int'], 0, 'public', 2)], bases: [], size: 4, tag: 'Struct', mark: 0)
            own = C36::D.new(kind: :struct, scope: [], name: "T#{i}", file: f, line: 5, xmlline: 5, fields: [C36::F.new('a', [:fund, int], 0, 'public', 6), C36::F.new('b', [:decl, common], 8, 'public', 7)], bases: [], size: 12, tag: 'Struct', mark: 1)
            File.write(f, "struct Common {\n int x;\n};\n// doc of #{i}\nstruct T#{i} {\n a\n b\n};\n")
            h.decls << common << own; h.decls.each { |d| h.ref([:decl, d]) }; h.file(f)
            opq = C36::D.new(kind: :struct, scope: [], name: "Opq", file: f, line: 8, xmlline: 8, fields: [], bases: [], size: 1, tag: 'Struct', mark: 2)
            h.ref([:decl, opq])
            File.write("#{f}.xml", h.text((0...h.xml.size).to_a))
            want["/T#{i}"] = [12, C36::FUND[int][0]]
        end
        reg = Typelib::Registry.new(false); Typelib::Registry.add_standard_cxx_types(reg)
        opaque = flip; reg.create_opaque('/Opq', 0) if opaque
        before = reg.each.map(&:name)
        fails = flip(1, 5) ? pick(files) : nil
        File.write("#{fails}.fails", "") if fails
        tool = flip(1, 4) ? 'gccxml' : 'castxml'
        opts = { define: Array.new(draw(3)) { |i| "D#{i}=\"a b\"" }, include: Array.new(draw(3)) { |i| "/inc/#{i} x" }, rawflags: flip ? ['-std=c++14'] : [] }
        opts[:parallel_level] = pick([1, 2, 5]) if flip
        rest = files.drop(1)
        note { "#{n} files, #{tool}, #{opts.inspect}, fails: #{fails.inspect}" }
        run = -> do
            case how = draw(3)
            when 0 then Typelib::GCCXMLLoader.load(reg, files[0], 'c', required_files: files, castxml: tool == 'castxml', **opts)
            when 1 then reg.import(files[0], 'c', required_files: files, cxx_importer: tool, castxml: tool == 'castxml', **opts)
            else Typelib::CXX.load(reg, files[0], 'c', required_files: files, cxx_importer: Typelib::GCCXMLLoader, castxml: tool == 'castxml', **opts)
            end
        end
        if fails
            refused("a header the tool fails on", ArgumentError) { run.call }
            next
        end
        if flip(1, 4)
            equal(Typelib::GCCXMLLoader.preprocess(files, 'c', castxml: true, **opts), files.map { |f| "#include <#{f}>\n" }.join, "preprocessed headers")
        end
        run.call
        nontrivial if n > 1
        want.each do |name, (size, first)|
            check(reg.include?(name)) { "#{name} is not imported" }
            t = reg.get(name); equal([t.size, t['a'].name, t['b'].name, t.offset_of('b')], [size, first, '/ns/Common', 8], "definition of #{name}")
            equal([t.metadata.get('doc'), t.metadata.get('source_file_line')], [["doc of #{name[2..-1]}"], ["#{files[name[2..-1].to_i]}:5"]], "metadata of #{name}")
        end
        equal((reg.each.map(&:name) - before - want.keys).sort, %w{/ns/Common} + [], "other types")
        check(reg.get('/Opq').opaque?) { "the opaque is not an opaque any more" } if opaque
        files.each do |f|
            args = File.read("#{f}.args").lines.map(&:chomp)
            missing = opts[:define].map { |x| "-D#{x}" } + opts[:include].map { |x| "-I#{x}" } + opts[:rawflags] - args
            equal(missing, [], "options not given to #{tool}")
        end
    end
end
# Stand-ins for clang and for the importer that is built on it
C36::CLANG = { 'typelib-clang-tlb-importer' => <<'SH', 'clang-3.4' => <<'SH2' }
#!/bin/sh
d=$(dirname "$0")
printf '%s\n' "$@" > "$d/args"
test -f "$d/fails" && exit 3
for a; do case "$a" in -tlbSavePath=*) out=${a#-tlbSavePath=};; -opaquePath=*) cp "${a#-opaquePath=}" "$d/opaques";; esac; done
cat "$d/tlb" > "$out"
SH
#!/bin/sh
for a; do f=$a; done
printf '%s\n' "$@" > "$(dirname "$0")/args"
test -f "$(dirname "$0")/fails" && exit 3
cat "$f"
SH2
PBT.facet("clang") do
    Dir.mktmpdir do |dir|
        begin
            bin = "#{File.realpath(dir)}/bin"; FileUtils.mkdir(bin)
            there = flip(9, 10)
            C36::CLANG.each { |x, t| File.write("#{bin}/#{x}", t); File.chmod(0755, "#{bin}/#{x}") } if there
            ENV['PATH'] = "#{bin}:#{C36::PATH}"
            # what the tool gives: types that use some of the registry's
            reg = Typelib::Registry.new(false); Typelib::Registry.add_standard_cxx_types(reg)
            opaques = Array.new(draw(4)) { |i| reg.create_opaque(flip ? "/Opq#{i}" : "/ns/Opq#{i}", draw(20)).name }
            others = Array.new(draw(3)) { |i| reg.create_compound("/Here#{i}") { |b| b.add 'x', '/double' }.name }
            out = Typelib::Registry.new(false); Typelib::Registry.add_standard_cxx_types(out)
            used = opaques.select { flip }; used.each { |o| out.create_opaque(o, reg.get(o).size) }
            new = Array.new(range(1, 3)) do |i|
                f = used + ['/int32_t', '/std/string']
                out.create_compound("/ns/New#{i}") { |b| range(1, 3).times { |k| b.add "f#{k}", pick(f) } }.name
            end
            File.write("#{bin}/tlb", out.to_xml)
            before = reg.each.map(&:name)
            files = Array.new(range(1, 3)) { |i| "#{dir}/h #{i}.hh" }; files.each { |f| File.write(f, "int x;") }
            opts = { define: Array.new(draw(3)) { |i| "D#{i}=\"a b\"" }, include: Array.new(draw(3)) { |i| "/inc/#{i} x" }, include_paths: Array.new(draw(2)) { |i| "/paths/#{i}" }, rawflags: flip ? ['-std=c++14'] : [] }.select { flip(2, 3) }
            want = (opts[:define] || []).map { |x| "-D#{x}" } + ((opts[:include] || []) + (opts[:include_paths] || [])).map { |x| "-I#{x}" } + (opts[:rawflags] || [])
            File.write("#{bin}/fails", "") if fails = flip(1, 6)
            note { "#{files.size} files, #{opts.inspect}, opaques #{opaques}, #{fails ? 'fails' : new.inspect}#{there ? '' : ', no tool'}" }
            nontrivial if files.size > 1 || fails
            xml = reg.to_xml
            run = -> do
                o = files.size > 1 || flip ? { required_files: files } : {}
                case draw(3)
                when 0 then Typelib::CLangLoader.load(reg, files[0], 'c', **o, **opts)
                when 1 then reg.import(files[0], 'c', cxx_importer: 'clang', **o, **opts)
                else Typelib::CXX.loader = Typelib::CLangLoader; Typelib::CXX.load(reg, files[0], 'c', **o, **opts)
                end
            end
            if !there || fails
                refused(there ? "a header the tool fails on" : "importing without the tool", RuntimeError) { run.call }
                equal(reg.to_xml, xml, "the registry after a failure")
                next
            end
            run.call
            args = File.read("#{bin}/args").lines.map(&:chomp)
            sep = args.index('--') or fail! "no -- in #{args}"
            equal(args[0...sep].reject { |a| a.start_with?('-') }, files, "headers given to the tool")
            equal(want - args[sep..-1], [], "options not given to the tool")
            equal(args[sep..-1].grep(/\A-[DI]/).sort, want.grep(/\A-[DI]/).sort, "options given to the tool")
            given = Typelib::Registry.from_xml(File.read("#{bin}/opaques"))
            equal(given.each.select(&:opaque?).map(&:name).sort, opaques.sort, "opaques given to the tool")
            equal(others.select { |o| given.include?(o) }, [], "other types given to the tool")
            equal((reg.each.map(&:name) - before).sort, new.sort, "new types")
            new.each { |x| check(reg.get(x) == out.get(x)) { "#{x} is not what the tool gives" } }
            if flip
                o = opts.reject { flip(1, 4) }
                want = (o[:define] || []).map { |x| "-D#{x}" } + ((o[:include] || []) + (o[:include_paths] || [])).map { |x| "-I#{x}" } + (o[:rawflags] || [])
                pre = -> { Typelib::CXX.loader = Typelib::CLangLoader; flip ? Typelib::CXX.preprocess(files, 'c', **o) : Typelib::CLangLoader.preprocess(files, 'c', **o) }
                equal(pre.call, files.map { |f| "#include <#{f}>\n" }.join, "preprocessed headers")
                equal(want - File.read("#{bin}/args").lines.map(&:chomp), [], "options not given to clang")
                File.write("#{bin}/fails", "")
                refused("preprocessing what clang fails on", ArgumentError) { pre.call }
            end
        ensure
            Typelib::CXX.remove_instance_variable(:@loader) if Typelib::CXX.instance_variable_defined?(:@loader)
            ENV['PATH'] = C36::PATH
        end
    end
end
PBT.facet("names") do
    # a C++ name, as the list of its parts; each is [name, arguments]
    gen = ->(depth) do
        Array.new(range(1, 3)) { [pick(%w{a std ns vector Base T_1}), depth > 0 && flip(1, 3) ? Array.new(range(1, 3)) { flip(1, 4) ? pick(%w{3 -1 0}) : gen[depth - 1] } : nil] }
    end
    cxx = ->(x, sp) { x.kind_of?(String) ? x : x.map { |n, a| a ? "#{n}#{sp[]}<#{sp[]}#{a.map { |y| cxx[y, sp] }.join("#{sp[]},#{sp[]}")}#{sp[]}>" : n }.join("::") }
    tl = ->(x) { x.kind_of?(String) ? x : x.map { |n, a| "/" + n + (a ? "<#{a.map(&tl).join(",")}>" : "") }.join }
    x = gen[2]; spaced = cxx[x, -> { pick(["", "", " "]) }]; n = tl[x]
    note { spaced }
    nontrivial if x.size > 1
    k = Typelib::GCCXMLLoader
    equal(k.cxx_to_typelib(spaced), n, "typelib name of #{spaced}")
    parts = x.map { |y| tl[[y]][1..-1] }
    equal(k.split_first_namespace(n), parts.size == 1 ? ["/", parts[0]] : ["/#{parts[0]}/", parts[1..-1].join("/")], "split_first_namespace(#{n})")
    equal(k.split_last_namespace(n), [parts.size == 1 ? "/" : "/#{parts[0..-2].join("/")}/", parts[-1]], "split_last_namespace(#{n})")
    l = k.new
    equal(c36_squeeze(l.typelib_to_cxx(n)), c36_squeeze(cxx[x, -> { "" }]), "C++ name of #{n}")
end
