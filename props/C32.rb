# C32: registries as seen from Ruby.
# facet: define 6000 100000
# facet: derive 6000 100000
# rule: define: a history of definitions (every kind of type, by name and by type object, every builder form), aliases, removals and impossible requests on one registry; after each step the registry enumerates, looks up and reflects exactly the types of a plain model, type objects keep their identity, and refused requests change nothing. derive: two registries with common types; dup, minimal, merge, add, to_xml, import, export and resize compared with the union, closure or size computed from the model. Non-trivial: at least five types defined, one of which depends on another (define); a registry of at least four types with a dependency (derive).
require 'gen'
require 'tmpdir'
module C32
    ERR = [StandardError]   # never the end of the process
    SUPER = { numeric: Typelib::NumericType, enum: Typelib::EnumType, compound: Typelib::CompoundType, opaque: Typelib::OpaqueType, null: Typelib::NullType, array: Typelib::ArrayType, pointer: Typelib::PointerType, container: Typelib::ContainerType }
    # A type; deps are the types it directly refers to
    class T
        attr_reader :kind, :name, :a
        attr_accessor :size, :rb
        def initialize(kind, name, size, **a) @kind, @name, @size, @a = kind, name, size, a end
        def [](k) @a[k] end
        def deps
            case kind
            when :compound then self[:fields].map { |f| f[1] }.uniq
            when :array, :pointer, :container then [self[:of]]
            else []
            end
        end
        def closure; deps.inject([self]) { |l, t| l | t.closure } end
        def inspect; "#{name}(#{kind} #{size})" end
        def desc
            at = case kind
                 when :numeric then self[:cat]
                 when :enum then self[:symbols].sort
                 when :compound then self[:fields].map { |n, t, o| [n, t.name, o] }
                 when :array then [self[:of].name, self[:n]]
                 when :pointer then self[:of].name
                 when :container then [self[:of].name, self[:ckind]]
                 end
            [SUPER[kind].name, name, size, at]
        end
    end
    # The model of a registry
    class Model
        attr_reader :reg, :types, :aliases
        attr_accessor :prefix, :count, :gone
        def initialize(reg, prefix) @reg, @prefix, @types, @aliases, @count, @gone = reg, prefix, {}, {}, 0, [] end
        def find(n) @types[n] || @aliases[n] end
        def add(t) @types[t.name] = t end
        def rdeps(t)
            r = [t]
            loop { more = @types.values.select { |x| !r.include?(x) && x.deps.any? { |d| r.include?(d) } }; return r if more.empty?; r |= more }
        end
    end
    def self.describe(rb)
        at = case
             when rb < Typelib::NumericType then rb.integer? ? (rb.unsigned? ? :uint : :sint) : :float
             when rb < Typelib::EnumType then rb.keys.to_a.sort
             when rb < Typelib::CompoundType then rb.get_fields.map { |n, o, t| [n, t.name, o] }
             when rb < Typelib::ContainerType then [rb.deference.name, rb.container_kind]
             when rb < Typelib::ArrayType then [rb.deference.name, rb.length]
             when rb < Typelib::PointerType then rb.deference.name
             end
        [rb.superclass.name, rb.name, rb.size, at]
    end
    def snapshot(reg)
        all = []
        reg.each(with_aliases: true) { |n, t| all << [n, C32.describe(t)] }
        all.sort_by(&:first)
    end
    def tname(m)
        m.count += 1
        b = "#{m.prefix}#{m.count}"
        case draw(6)
        when 0 then "/ns/#{b}"
        when 1 then "/ns/in ner/#{b}"
        when 2 then "/#{b}</int,/ns/x>"
        else "/#{b}"
        end
    end
    def anything(m) t = m.types.values; flip(1, 2) && t.size > 3 ? t[t.size - 1 - draw(3)] : pick(t) end
    # t, its name or one of its aliases: what the API takes as a type
    def ref(m, t)
        names = m.aliases.select { |_, x| x.equal?(t) }.keys
        case draw(3)
        when 0 then t.name.dup
        when 1 then names.empty? ? t.rb : pick(names).dup
        else t.rb
        end
    end
    def made(m, t, rb)
        note { "#{t.inspect} #{t.desc[3].inspect}" }
        t.rb = rb
        check(rb.kind_of?(Class)) { "defining #{t.name} returns #{PBT.short(rb)}" }
        m.add(t)
        t
    end
    def size_of_fields(f) f.map { |_, t, o| o + t.size }.max || 0 end
    def define(m, kinds = nil)
        reg = m.reg; usable = m.types.values.reject { |t| t.kind == :null }
        kinds ||= %i{numeric opaque enum null compound compound container array pointer}
        k = usable.empty? ? :numeric : pick(kinds)
        case k
        when :numeric
            s = pick([1, 2, 4, 8, 4, 3, 16]); c = pick(%i{sint uint float}); n = tname(m)
            made(m, T.new(:numeric, n, s, cat: c), reg.create_numeric(n.dup, s, c))
        when :opaque
            n = tname(m); s = pick([0, 1, 8, 24, 1000])
            made(m, T.new(:opaque, n, s), reg.create_opaque(n.dup, s))
        when :null
            n = tname(m)
            made(m, T.new(:null, n, 0), reg.create_null(n.dup))
        when :enum
            n = tname(m); syms = {}; v = 0; defs = []
            range(1, 6).times do |i|
                s = pick(["S#{i}", "sym_#{i}", "N #{i}"])
                if flip(1, 2)
                    v = pick([0, -1, 5, 5, 100, 2**31 - 1, -2**31, 2**30, 2**31 - 2]); syms[s] = v; defs << [s, v]
                else
                    next if v > 2**31 - 1
                    syms[s] = v; defs << [s]
                end
                v += 1
            end
            if defs.empty? then syms = { 'a' => 0 }; defs = [['a']] end
            if flip(1, 10) # descriptions and values know no other size than 4: not in this registry
                size = pick([1, 2, 8, 16])
                equal(Typelib::Registry.new(false).create_enum(n.dup, size) { |b| b.a }.size, size, "size of an enum created with it")
            end
            rb = reg.create_enum(n.dup, *pick([[], [0], [4]])) do |b|
                defs.each do |s, v2|
                    meth = s !~ /\s/ && flip
                    if v2 then meth ? b.send("#{s}=", v2) : b.add(flip ? s : s.to_sym, flip(1, 4) ? v2.to_s : v2)
                    else meth ? b.send(s) : b.add(s) end
                end
            end
            made(m, T.new(:enum, n, 4, symbols: syms), rb)
        when :compound
            n = tname(m); fields = []; off = 0; forms = []
            range(0, 5).times do |i|
                t = pick(usable); t = anything(m) if flip; t = pick(usable) if t.kind == :null
                fn = pick(["f#{i}", "field_#{i}", "size", "class"]); fn = "f#{i}" if fields.any? { |x, _| x == fn }
                o = nil
                if flip(1, 3) then o = flip(1, 4) ? draw(off + 1) : off + draw(5) end
                fields << [fn, t, o || off]; forms << [fn, ref(m, t), o, o.nil? && flip]
                off = fields.last[2] + t.size
            end
            total = size_of_fields(fields)
            extra = flip(1, 4) && total > 0 ? total + draw(9) : 0
            rb = reg.create_compound(n.dup, extra) do |b|
                forms.each do |fn, r, o, meth|
                    if meth then b.send("#{fn}=", r)
                    elsif o then b.add(flip ? fn : fn.to_sym, r, o)
                    else b.add(fn, r) end
                end
            end
            made(m, T.new(:compound, n, extra > 0 ? extra : total, fields: fields), rb)
        when :container
            t = pick(usable); n = "/std/vector<#{t.name}>"
            return m.types[n] if m.types[n]
            s = flip(1, 4) ? pick([24, 32, 12]) : 0
            rb = s == 0 ? reg.create_container('/std/vector', ref(m, t)) : reg.create_container('/std/vector', ref(m, t), s)
            made(m, T.new(:container, n, s == 0 ? 24 : s, of: t, ckind: '/std/vector'), rb)
        when :array
            t = pick(usable); d = range(1, 4)
            return if t.kind == :array   # the order of the dimensions is C19's matter
            r = ref(m, t); n = "#{t.name}[#{d}]"
            rb = flip ? reg.create_array(r, d) : reg.build("#{r.kind_of?(Class) ? r.name : r}[#{d}]")
            (t0 = m.types[n]) ? (check(rb.equal?(t0.rb), "building #{n} again gives another object"); t0) : made(m, T.new(:array, n, d * t.size, of: t, n: d), rb)
        when :pointer
            t = pick(m.types.values)
            return if t.kind == :array
            n = "#{t.name}*"
            r = ref(m, t)
            rb = flip ? t.rb.to_ptr : reg.build("#{r.kind_of?(Class) ? r.name : r}*")
            (t0 = m.types[n]) ? (check(rb.equal?(t0.rb), "building #{n} again gives another object"); t0) : made(m, T.new(:pointer, n, 8, of: t), rb)
        end
    end
    def alias_some(m)
        t = pick(m.types.values)
        m.count += 1
        n = pick(["/al#{m.prefix}#{m.count}", "/ns/al#{m.prefix}#{m.count}"])
        src = ref(m, t); src = src.name if src.kind_of?(Class)
        note { "alias #{n} -> #{src}" }
        r = m.reg.alias(n.dup, src.dup)
        check(r.equal?(m.reg), "alias does not return the registry")
        m.aliases[n] = t
    end
    # Names that the registry holds beyond the model are names of pointers, arrays and containers made from aliases
    def extra?(m, n, rb) rb < Typelib::IndirectType && m.types.values.any? { |t| t.rb.equal?(rb) } end
    def verify(m, what)
        reg = m.reg; all = []; seen = []
        reg.each(with_aliases: true) { |n, t| all << [n, t] }
        reg.each { |t| seen << t }
        names = all.map(&:first)
        equal(names.sort, names, "#{what}: order of the names")
        equal(seen.map(&:name).sort, m.types.keys.sort, "#{what}: types")
        extras = all.reject { |n, _| m.find(n) }
        extras.each { |n, t| check(extra?(m, n, t)) { "#{what}: the registry holds #{n} (#{t.name}), which was never defined" } }
        h = Hash[all]
        m.types.each { |n, t| check(h[n].equal?(t.rb)) { "#{what}: #{n} is #{PBT.short(h[n])}" } }
        m.aliases.each { |n, t| check(h[n].equal?(t.rb)) { "#{what}: alias #{n} is #{PBT.short(h[n])}, expected #{t.name}" } }
        equal(reg.size, all.size, "#{what}: size")
        equal(reg.each(with_aliases: true).to_a.map { |x| x[0] }, names, "#{what}: names of the enumerator")
        equal(reg.map(&:name), seen.map(&:name), "#{what}: map over the registry")
        pre = pick(%w{/ns /ns/in /a /b /std /})
        under = m.types.keys.select { |n| pre == '/' || n.start_with?(pre + '/') }
        got = reg.each(pre == '/' ? pick(['/', nil]) : pre + (flip ? '/' : '')).map(&:name)
        check((under - got).empty?) { "#{what}: types in #{pre}: #{got.inspect}, which lacks #{(under - got).inspect}" }
        (m.gone - m.types.keys - m.aliases.keys - extras.map(&:first)).each { |n| absent(m, n, what) }
        [3, m.types.size].min.times { reflect(m, anything(m), what) }
        if !m.aliases.empty?
            n = pick(m.aliases.keys); t = m.aliases[n]
            check(reg.get(n.dup).equal?(t.rb)) { "#{what}: get(#{n})" }
            check(reg.build(n.dup).equal?(t.rb)) { "#{what}: build(#{n})" }
        end
    end
    def absent(m, n, what)
        check(!m.reg.include?(n.dup)) { "#{what}: include?(#{n}) after its removal" }
        refused("#{what}: get(#{n})", Typelib::NotFound) { m.reg.get(n.dup) }
    end
    def reflect(m, t, what)
        rb = t.rb; reg = m.reg; w = "#{what}: #{t.name}"
        if reg && m.types[t.name].equal?(t)
            check(reg.get(t.name.dup).equal?(rb)) { "#{w}: get gives another object" }
            check(reg.include?(t.name.dup)) { "#{w}: not included" }
            check(reg.includes?(t.name.dup)) { "#{w}: not included" }
            equal(reg.reverse_depends(rb).map(&:name).sort, m.rdeps(t).map(&:name).sort, "#{w}: reverse_depends")
            al = reg.aliases_of(rb); mine = m.aliases.select { |_, x| x.equal?(t) }.keys
            check((mine - al).empty?) { "#{w}: aliases_of gives #{al.inspect}, expected #{mine.inspect}" }
            (al - mine).each { |n| check(!m.find(n) && extra?(m, n, reg.get(n))) { "#{w}: aliases_of gives #{n}" } }
            equal(reg.source_id_of(rb), nil, "#{w}: source_id_of")
            check(rb.registry.equal?(reg)) { "#{w}: registry" }
        end
        equal(rb.name, t.name, "#{w}: name")
        equal(C32.describe(rb), t.desc, "#{w}: definition")
        equal(rb.superclass, SUPER[t.kind], "#{w}: class")
        equal(!!rb.null?, t.kind == :null, "#{w}: null?")
        equal(!!rb.opaque?, t.kind == :opaque, "#{w}: opaque?")
        equal(rb.dependencies.map(&:name).sort, t.deps.map(&:name).sort, "#{w}: dependencies")
        equal(rb.direct_dependencies.map(&:name).sort, t.deps.map(&:name).sort, "#{w}: direct_dependencies")
        equal(rb.recursive_dependencies.map(&:name).sort, (t.closure - [t]).map(&:name).sort, "#{w}: recursive_dependencies")
        t.closure.each { |d| check(rb.contains?(d.rb)) { "#{w}: contains?(#{d.name})" } }
        check(rb == rb && rb.eql?(rb), "#{w}: not equal to itself")
        base = rb.basename; ns = rb.namespace
        equal(ns + base, t.name, "#{w}: namespace and basename")
        equal("/" + rb.split_typename.join("/"), t.name, "#{w}: split_typename")
        equal(rb.full_name, t.name, "#{w}: full_name")
        equal(rb.full_name('::'), ns.gsub('/', '::') + base.gsub('/', '::'), "#{w}: full_name('::')")
        case t.kind
        when :enum
            t[:symbols].each do |s, v|
                equal(rb.value_of(s.dup), v, "#{w}: value_of(#{s})")
                back = rb.name_of(v)
                check(t[:symbols][back] == v) { "#{w}: name_of(#{v}) is #{back}" }
            end
            refused("#{w}: value_of('nope')", ArgumentError) { rb.value_of('nope') }
            bad = ([7, 1001, -12] - t[:symbols].values)[0]
            refused("#{w}: name_of(#{bad})", ArgumentError) { rb.name_of(bad) }
        when :numeric
            equal(rb.integer?, t[:cat] != :float, "#{w}: integer?")
            t[:cat] == :float ? refused("#{w}: unsigned?", ArgumentError) { rb.unsigned? } : equal(rb.unsigned?, t[:cat] == :uint, "#{w}: unsigned?")
        when :compound
            names = t[:fields].map(&:first)
            equal(rb.fields.map(&:first), names, "#{w}: fields")
            equal(rb.each_field.map { |n, _| n }, names, "#{w}: each_field")
            equal(rb.empty?, names.empty?, "#{w}: empty?")
            t[:fields].each do |n, ft, o|
                check(rb[n].equal?(ft.rb) && rb[n.to_sym].equal?(ft.rb) && rb.field_types[n].equal?(ft.rb)) { "#{w}: type of #{n}" }
                equal(rb.offset_of(n), o, "#{w}: offset_of(#{n})")
                check(rb.has_field?(n) && rb.has_field?(n.to_sym)) { "#{w}: has_field?(#{n})" }
                check(rb.field_metadata[n].kind_of?(Typelib::MetaData)) { "#{w}: field_metadata" }
            end
            check(!rb.has_field?('nope'), "#{w}: has_field?('nope')")
            refused("#{w}['nope']", ArgumentError) { rb['nope'] }
            refused("#{w}.offset_of('nope')", *ERR) { rb.offset_of('nope') }
        when :array
            equal(rb.length, t[:n], "#{w}: length")
            check(rb.deference.equal?(t[:of].rb)) { "#{w}: deference" }
        when :pointer, :container
            check(rb.deference.equal?(t[:of].rb)) { "#{w}: deference" }
            if t.kind == :container
                equal(rb.container_kind, t[:ckind], "#{w}: container_kind"); equal(rb.natural_size, 24, "#{w}: natural_size"); equal(rb.random_access?, true, "#{w}: random_access?")
            end
        end
    end
    # Requests that cannot be done
    def bad_request(m, other)
        reg = m.reg; t = pick(m.types.values); n = tname(m); usable = pick(m.types.values.reject { |x| x.kind == :null })
        bad = pick(["relative", "", "/", "//x", "/a//b", "/x/", "/a[2]x", "/a<"])
        taken = pick(m.types.keys + m.aliases.keys)
        foreign = pick(other.types.values.select { |x| x.kind == :numeric || x.kind == :compound })
        q = draw(30)
        note { "impossible request #{q} (#{t.name}, #{bad.inspect}, #{taken}, #{foreign.inspect})" }
        what, f = case q
            when 0 then ["create_numeric with the bad name #{bad.inspect}", -> { reg.create_numeric(bad.dup, 4, :sint) }]
            when 1 then ["create_numeric with the existing name #{taken}", -> { reg.create_numeric(taken.dup, 4, :sint) }]
            when 2 then ["create_numeric of category :foo", -> { reg.create_numeric(n, 4, :foo) }]
            when 3 then ["create_opaque with the existing name #{taken}", -> { reg.create_opaque(taken.dup, 4) }]
            when 4 then ["create_null with the bad name #{bad.inspect}", -> { reg.create_null(bad.dup) }]
            when 5 then ["create_enum without symbols", -> { reg.create_enum(n) { |b| } }]
            when 6 then ["create_enum with the existing name #{taken}", -> { reg.create_enum(taken.dup) { |b| b.a } }]
            when 7 then ["create_enum with two values for one symbol", -> { reg.create_enum(n) { |b| b.add('a', 1); b.add('b', 2); b.add('a', 3) } }]
            when 8 then ["create_enum with a value of 2**31", -> { reg.create_enum(n) { |b| b.add('a', 2**31) } }]
            when 9 then ["create_enum with the value 'x'", -> { reg.create_enum(n) { |b| b.add('a', 'x') } }]
            when 10 then ["create_compound with the existing name #{taken}", -> { reg.create_compound(taken.dup) { |b| b.add('f', usable.rb) } }]
            when 11 then ["create_compound with an unknown field type", -> { reg.create_compound(n) { |b| b.add('f', '/unknown/type') } }]
            when 12 then ["create_compound with a field that is no type", -> { reg.create_compound(n) { |b| b.add('f', pick([nil, 3, Object, Typelib::CompoundType, 'x', [], m])) } }]
            when 13 then ["create_compound with a type of another registry", -> { reg.create_compound(n) { |b| b.add('f', usable.rb); b.add('g', foreign.rb) } }]
            when 14 then ["create_compound with the bad name #{bad.inspect}", -> { reg.create_compound(bad.dup) { |b| b.add('f', usable.rb) } }]
            when 15 then ["create_container of an unknown kind", -> { reg.create_container('/std/nope', usable.rb) }]
            when 16 then ["create_container of a type of another registry", -> { reg.create_container('/std/vector', foreign.rb) }]
            when 17 then ["create_container of an unknown type", -> { reg.create_container('/std/vector', '/unknown/type') }]
            when 18 then ["create_array of an unknown type", -> { reg.create_array('/unknown/type', 2) }]
            when 19 then ["get of an unknown type", -> { reg.get('/unknown/type') }]
            when 20 then ["build of an unknown type", -> { reg.build('/unknown/type*') }]
            when 21 then ["build of a malformed name", -> { reg.build(t.name + pick(["[", "]", "[x]", "[-1]"])) }]
            when 22 then ["alias of an unknown type", -> { reg.alias(n, '/unknown/type') }]
            when 23 then ["alias with the bad name #{bad.inspect}", -> { reg.alias(bad.dup, t.name.dup) }]
            when 24
                tk = taken
                return if m.find(tk).equal?(t)
                ["alias of #{t.name} with the existing name #{tk}", -> { reg.alias(tk.dup, t.name.dup) }]
            when 25 then ["remove_alias of the type #{t.name}", -> { reg.remove_alias(t.name.dup) }]
            when 26 then ["remove_alias of an unknown name", -> { reg.remove_alias('/unknown/type') }]
            when 27 then ["remove of a type of another registry", -> { reg.remove(foreign.rb) }]
            when 28 then ["add_standard_cxx_types of a String", -> { Typelib::Registry.add_standard_cxx_types("x") }]
            else
                arg = pick([nil, 3, :sym, [], t.rb])
                ["#{%w{get include? build remove_alias create_null merge_xml}[k = draw(6)]}(#{arg.inspect})", -> { reg.send(%i{get include? build remove_alias create_null merge_xml}[k], arg) }]
            end
        refused(what, *ERR, &f)
    end
    def fresh; Typelib::Registry.new(false) end
end
PBT::DSL.include C32
PBT.facet 'define' do
    m = C32::Model.new(fresh, 'a'); o = C32::Model.new(fresh, 'o')
    3.times { define(o, %i{numeric compound}) }
    writes = 0
    range(2, 8).times { define(m) }
    size(22).times do |step|
        what = "step #{step}"
        case weighted(8, 3, 2, 1, 1, 4, 1)
        when 0 then define(m)
        when 1 then alias_some(m)
        when 2
            t = pick(m.types.values); gone = m.rdeps(t)
            next if gone.size == m.types.size
            note { "remove #{t.name}" }
            r = m.reg.remove(t.rb)
            equal(r.map(&:name).sort, gone.map(&:name).sort, "#{what}: types returned by remove(#{t.name})")
            r.each { |x| check(gone.any? { |g| g.rb.equal?(x) }) { "#{what}: remove returns another object for #{x.name}" } }
            gone.each { |g| m.types.delete(g.name); m.gone << g.name }
            m.aliases.delete_if { |n, x| gone.include?(x) && m.gone << n }
            reflect(m, pick(gone), "#{what}, after removal")
        when 3
            next if m.aliases.empty?
            n = pick(m.aliases.keys); note { "remove_alias #{n}" }
            m.reg.remove_alias(n.dup); m.aliases.delete(n); m.gone << n
        when 4
            next if !flip(1, 3)
            note "clear_aliases"
            m.reg.clear_aliases; m.gone.concat(m.aliases.keys); m.aliases.clear
        when 5 then bad_request(m, o)
        else
            GC.enable; GC.start; GC.disable
            note "garbage collection"
        end
        verify(m, what)
        verify(o, "#{what}: the other registry") if step % 5 == 4
    end
    nontrivial if m.types.size >= 5 && m.types.values.any? { |t| !t.deps.empty? }
    label "types #{m.types.size / 5 * 5}"
end
PBT.facet 'derive' do
    a = C32::Model.new(fresh, 'a'); b = C32::Model.new(fresh, 'b')
    range(3, 12).times { define(a) }
    draw(4).times { alias_some(a) }
    nontrivial if a.types.size >= 4 && a.types.values.any? { |t| !t.deps.empty? }
    # What a registry with the given types and aliases looks like; pointers and arrays come only as needed
    # and the order of the fields is the one of their offsets in files
    norm = ->(d) { d[0] == 'Typelib::CompoundType' ? d[0, 3] + [d[3].sort_by { |n, _, o| [o, n] }] : d }
    expect = lambda do |types, aliases, reg, what|
        want = {}
        types.each { |t| want[t.name] = t.desc }
        aliases.each { |n, t| want[n] = t.desc }
        got = Hash[snapshot(reg)]
        (want.keys - got.keys).each { |n| fail!("#{what}: #{n} is missing") }
        (got.keys - want.keys).each do |n|
            d = got[n]
            check(%w{Typelib::ArrayType Typelib::PointerType Typelib::ContainerType}.include?(d[0]) && d[1] != n && want[d[1]]) { "#{what}: #{n} is there" }
        end
        want.each { |n, d| equal(norm.(got[n]), norm.(d), "#{what}: #{n}") }
    end
    persistent = ->(types) { keep = types.reject { |t| %i{array pointer}.include?(t.kind) }; keep.inject([]) { |l, t| l | t.closure } }
    before = snapshot(a.reg)
    op = draw(10); note "operation #{op}"; label "operation #{op}"
    case op
    when 0
        d = a.reg.dup
        expect.(a.types.values, a.aliases, d, "dup")
        a.types.each { |n, t| check(!d.get(n).equal?(t.rb) && d.get(n).registry.equal?(d)) { "dup shares #{n}" } ; check(d.get(n) == t.rb && d.get(n).eql?(t.rb)) { "dup: #{n} is not equal to the original" } }
        t = d.create_null('/only/here'); check(!a.reg.include?('/only/here'), "dup is not independent")
    when 1
        t = pick(a.types.values); n = ref(a, t); n = n.name if n.kind_of?(Class)
        al = pick([true, false, nil])
        r = al.nil? ? a.reg.minimal(n.dup) : a.reg.minimal(n.dup, al)
        al = true if al.nil?
        cl = t.closure
        expect.(cl, al ? a.aliases.select { |_, x| cl.include?(x) } : {}, r, "minimal(#{n}, #{al})")
        refused("minimal of an unknown type", *C32::ERR) { a.reg.minimal('/unknown') }
    when 2
        auto = fresh; known = a.types.values.select { flip(1, 2) }
        known.each { |t| auto.create_null(t.name.dup) if t.name !~ /[\]*]\z/ }
        known.reject! { |t| t.name =~ /[\]*]\z/ }
        auto.create_null('/of/auto')
        known_aliases = a.aliases.keys.select { flip(1, 2) }.select { |n| begin auto.alias(n.dup, '/of/auto'); true; rescue ArgumentError; false end }
        al = pick([true, false, nil])
        r = al.nil? ? a.reg.minimal(auto) : a.reg.minimal(auto, al)
        kn = known.map(&:name)   # a registry is taken to have the pointers to and arrays of its types
        cl = a.types.values.reject { |t| kn.include?(t.name.sub(/([*]|\[\d+\])+\z/, '')) }.inject([]) { |l, t| l | t.closure }
        expect.(cl, a.aliases.select { |n, x| cl.include?(x) && (al || !known_aliases.include?(n)) }, r, "minimal(registry, #{al.inspect})")
    when 3, 4
        # b holds some of a's types and its own
        copy = pick(a.types.values)
        b.reg.add(copy.rb)
        copy.closure.each { |t| b.add(x = t.dup); x.rb = b.reg.get(t.name) }
        note "common: #{b.types.keys.inspect}"
        mine = []
        range(1, 4).times { t = define(b); mine << t if t }
        draw(3).times { alias_some(b) }
        a2 = b.aliases
        bad = flip(1, 3) ? pick(a.types.values.select { |t| !b.types[t.name] && t.kind != :pointer && t.kind != :array && t.kind != :container }) : nil
        if bad
            b.reg.create_numeric(bad.name.dup, 77, :sint)
        else bad = mine.find { |t| a.types[t.name] && a.types[t.name].size != t.size }   # containers of the same elements
        end
        if bad
            sb = snapshot(b.reg)
            refused("merge with another definition of #{bad.name}", *C32::ERR) { a.reg.merge(b.reg) }
            equal(snapshot(b.reg), sb, "the registry merged")
        else
            r = a.reg.merge(b.reg)
            check(r.equal?(a.reg), "merge does not return the registry")
            before = nil
            all = a.types.values + mine.inject([]) { |l, t| l | t.closure }.reject { |t| a.types[t.name] }
            expect.(all, a.aliases.merge(a2), a.reg, "merge")
            a.types.each { |n, t| check(a.reg.get(n).equal?(t.rb)) { "merge changed the object of #{n}" } }
        end
    when 5
        types = persistent.(a.types.values)
        xml = a.reg.to_xml
        equal(a.reg.export('tlb'), xml, "export('tlb')")
        als = a.aliases.select { |_, x| types.include?(x) }
        al_indirect = a.aliases.select { |_, x| !types.include?(x) }
        r = al_indirect.empty? ? Typelib::Registry.from_xml(xml) : nil
        expect.(types, als, r, "from_xml(to_xml)") if r
        refused("from_xml of garbage", *C32::ERR) { Typelib::Registry.from_xml(xml[0, xml.size / 2]) }
        r2 = fresh; check(r2.merge_xml(xml).equal?(r2), "merge_xml does not return the registry") if r
    when 6
        types = persistent.(a.types.values); next if a.aliases.any? { |_, x| !types.include?(x) }
        Dir.mktmpdir do |dir|
            f = File.join(dir, "r.tlb"); File.write(f, a.reg.to_xml)
            how = draw(4); note "import form #{how}"
            r = case how
                when 0 then Typelib::Registry.import(f)
                when 1 then x = fresh; x.import(f); x
                when 2 then x = fresh; x.import(f, 'tlb', merge: false); x
                else x = fresh; x.import(f, nil, merge: true); x.import(f, 'auto', merge: true); x
                end
            expect.(types, a.aliases, r, "import (#{how})")
            types.each { |t| s = r.source_id_of(r.get(t.name)); check(s.nil? || s == f) { "source_id_of #{t.name} is #{s}" } }
            s0 = snapshot(r)
            refused("import of a missing file", *C32::ERR) { r.import(File.join(dir, "none.tlb")) }
            refused("import of a file of unknown extension", *C32::ERR) { r.import(File.join(dir, "none.what")) }
            refused("import with an unknown importer", *C32::ERR) { r.import(f, 'nosuch') }
            File.write(f, "<typelib><foo"); refused("import of a malformed file", *C32::ERR) { r.import(f) }
            equal(snapshot(r), s0, "the registry after refused imports")
        end
    when 7
        # options of the exporters, in every form
        m = C32::Model.new(fresh, 'i')
        u8 = m.reg.create_numeric('/uint8_t', 1, :uint); i4 = m.reg.create_numeric('/int32_t', 4, :sint)
        c = m.reg.create_compound('/ns/C') { |x| x.a = i4; x.b = u8 }
        opaque = flip
        if opaque then op_t = m.reg.create_opaque('/ns/O', 8); m.reg.create_compound('/ns/D') { |x| x.o = op_t } end
        opts = {}
        opts[pick([:namespace_prefix, 'namespace_prefix'])] = pick(['Pre', :Pre]) if (pre = flip)
        opts[pick([:namespace_suffix, 'namespace_suffix'])] = pick(['Post', :Post]) if (post = flip)
        any = flip
        opts[pick([:opaque_as_any, 'opaque_as_any'])] = any if any || flip
        opts[:list] = ['a', :b, 3] if flip
        opts[:nested] = pick([{ a: 1 }, { 'x' => { y: 2 } }, [{ a: 1 }, { b: 'c' }], {}, []]) if flip
        opts[:number] = 3 if flip
        note { "idl options #{opts.inspect}" }
        if opaque && !any
            refused("IDL export of an opaque type", *C32::ERR) { m.reg.export('idl', opts) }
        else
            idl = m.reg.export('idl', opts)
            mods = idl.scan(/^\s*module\s+(\w+)/).flatten
            want = (pre ? ['Pre'] : []) + ['ns'] + (post ? ['Post'] : [])
            equal(mods.uniq, want, "modules of the IDL export with #{opts.inspect}")
            check(idl =~ /struct\s+C\b/) { "IDL export without C: #{idl}" }
        end
        equal(m.reg.export('tlb', opts), m.reg.to_xml, "export('tlb') with options it does not know")
        refused("export to an unknown format", *C32::ERR) { m.reg.export('nosuch') }
    when 8
        sizes = {}
        ts = a.types.values.select { |t| %i{numeric opaque}.include?(t.kind) && flip }
        ts.each { |t| sizes[t] = t.size + 1 + draw(8) }
        next if sizes.empty?
        # only with fields in sequence, whose shift is not in question
        next if a.types.values.any? { |t| t.kind == :compound && t[:fields].each_cons(2).any? { |x, y| y[2] < x[2] + x[1].size } }
        next if a.types.values.any? { |t| t.kind == :compound && t.size != size_of_fields(t[:fields]) }
        if sizes.size == 1 && flip then t, s = sizes.first; a.reg.resize_type(flip ? t.rb : t.name.dup, s)
        else a.reg.resize(Hash[sizes.map { |t2, s2| [ref(a, t2), s2] }]) end
        before = nil
        # sizes are computed from the model, once per type, dependencies first
        old = Hash[a.types.values.map { |t| [t, t.size] }]
        sizes.each { |t, s| t.size = s }
        ready = a.types.values.select { |t| t.deps.empty? || %i{pointer container}.include?(t.kind) }
        todo = a.types.values - ready
        until todo.empty?
            nxt = todo.select { |t| t.deps.all? { |d| ready.include?(d) } }
            nxt.each do |t|
                if t.kind == :array then t.size = t[:of].size * t[:n]
                else
                    shift = 0
                    t[:fields].each { |f| f[2] += shift; shift += f[1].size - old[f[1]] }
                    t.size += shift
                end
            end
            ready |= nxt; todo -= nxt
        end
        a.types.each_value { |t| equal(C32.describe(t.rb), t.desc, "after the resize of #{sizes.map { |x, s| [x.name, s] }.inspect}: #{t.name}") }
        refused("resize of an unknown type", *C32::ERR) { a.reg.resize('/unknown' => 4) }
    else
        # types outlive the variables holding their registry
        t = pick(a.types.values)
        rb = a.reg.dup.get(t.name)
        GC.enable; 2.times { GC.start }; GC.disable
        equal(C32.describe(rb), t.desc, "a type whose registry is not referred to anymore")
        equal(rb.registry.map(&:name).sort, a.types.keys.sort, "the registry of this type")
        check(rb.registry.get(t.name).equal?(rb), "the type object has changed")
    end
    equal(snapshot(a.reg), before, "the source registry") if before
end
