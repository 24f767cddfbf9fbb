# C35: types, values and metadata are found by name and structure from Ruby.
# facet: names 4000 80000
# facet: export 2000 30000
# facet: accessor 2500 40000
# facet: templates 6000 100000
# facet: metadata 2500 40000
# rule: names: namespace, basename, full_name and split_typename of type names (namespaces, template arguments with namespaces), with separators, against the components they were made of. export: registries of types in namespaces, inside of other types and with template arguments, exported to modules with and without filter; every name reached step by step gives its type, unknown ones raise NotFound. accessor: Accessor.find_in_type with random criteria on random types and values against a walk of the model. templates: C++ template names printed with random spaces and parsed back. metadata: histories on the metadata of types, fields and standalone objects against a multimap, then derived registries. Non-trivial: at least two namespaces or template arguments (names, export, templates), at least two values found (accessor), at least four changes (metadata).
require 'gen'
module C35
    def word; pick(%w{a b ns std Base x1 Some_Type _t vector Time}) end
    # A component of a type name
    def component(depth = 2)
        w = word
        return w if depth == 0 || !flip(1, 3)
        "#{w}<#{Array.new(range(1, 3)) { template_arg(depth - 1) }.join(",")}>"
    end
    def template_arg(depth) flip(1, 4) ? pick(%w{3 -1 0 12}) : "/" + Array.new(range(1, 3)) { component(depth) }.join("/") end
    def c35_registry
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        reg
    end
    # Model of a type name by namespaces: name => [type?, children]
    Node = Struct.new(:type, :kids)
    # Values of the model that satisfy the criterion: [type model, value]
    def c35_find(t, v, found, &crit)
        found << [t, v] if crit.call(t)
        case t.kind
        when :compound then t[:fields].each { |n, _, ft| c35_find(ft, v[n], found, &crit) }
        when :array, :vector then v.each { |x| c35_find(t[:of], x, found, &crit) }
        when :chars then t.size.times { |i| c35_find(CHAR, v.bytes[i] || 0, found, &crit) }
        when :string then v.bytes.each { |b| c35_find(CHAR, b > 127 ? b - 256 : b, found, &crit) }
        end
        found
    end
    CHAR = M.new(:int, '/int8_t', 1, signed: true)
    CRITERIA = {
        'containers' => [->(rb) { rb <= Typelib::ContainerType }, ->(t) { %i{vector string}.include?(t.kind) }],
        'arrays' => [->(rb) { rb <= Typelib::ArrayType }, ->(t) { %i{array chars}.include?(t.kind) }],
        'compounds' => [->(rb) { rb <= Typelib::CompoundType }, ->(t) { t.kind == :compound }],
        'enums' => [->(rb) { rb <= Typelib::EnumType }, ->(t) { t.kind == :enum }],
        'numbers' => [->(rb) { rb <= Typelib::NumericType }, ->(t) { %i{int float bool}.include?(t.kind) }],
        'doubles' => [->(rb) { rb.name == '/double' }, ->(t) { t.name == '/double' }],
        'int8' => [->(rb) { rb.name == '/int8_t' }, ->(t) { t.name == '/int8_t' }],
        'all' => [->(rb) { true }, ->(t) { true }],
        'none' => [->(rb) { false }, ->(t) { false }],
        'small' => [->(rb) { rb.size < 8 }, ->(t) { t.size < 8 }],
    }
    # Template names: [name, arguments as text]
    def cxx_word; pick(["int", "std::vector", "A", "ns::B", "unsigned int", "3", "-1", "char const*", "T_1"]) end
    def cxx_template(depth) # nested list [name, args...] or [name]
        return [cxx_word] if depth == 0 || !flip
        t = [cxx_word.sub(/\A-?\d+\z/, 'N')]
        args = Array.new(depth > 3 ? range(1, 2) : range(0, 3)) { cxx_template(depth - 1) }
        t + [args] + (flip(1, 6) ? ["::type"] : [])
    end
    def cxx_text(t, sp) # sp: how to write spaces
        t[0] + (t[1] ? sp.call + "<" + sp.call + t[1].map { |x| cxx_text(x, sp) }.join(sp.call + "," + sp.call) + sp.call + ">" + (t[2] || "") : "")
    end
    KEYS = ["k", "key", "", "with space", "h\u00e9", "<&\"'>", "a:b", "K"]
    VALUES = ["v", "w", "", "two words", "\u65e5\u672c", "]]>", "<x y=\"z\"/>", "1\n2", "v2", "&amp;"]
    def c35_meta(x, m, what)
        equal(x.keys, m.keys.sort_by(&:b), "#{what}: keys")
        m.each { |k, l| equal(x.get(k), l.sort_by(&:b), "#{what}: get(#{k.inspect})") }
        case draw(4)
        when 0 then equal(x.each.to_a, m.sort_by { |k, _| k.b }.map { |k, l| [k, l.sort_by(&:b)] }, "#{what}: each")
        when 1 then k = pick(KEYS); equal(x.include?(k), m.has_key?(k), "#{what}: include?(#{k.inspect})"); equal(x[k], (m[k] || []).sort_by(&:b), "#{what}: [#{k.inspect}]")
        when 2 then l = []; x.each { |k, v| l << [k, v] }; equal(l.map(&:first).sort, m.keys.sort, "#{what}: keys yielded by each")
        when 3 then x.each { |k, v| equal([k.encoding, v.map(&:encoding).uniq - [Encoding::UTF_8]], [Encoding::UTF_8, []], "#{what}: encodings") }
        end
    end
end
PBT::DSL.include C35
PBT.facet("names") do
    parts = Array.new(range(1, 4)) { component }
    name = "/" + parts.join("/")
    note(name)
    ns = parts.size == 1 ? "/" : "/" + parts[0..-2].join("/") + "/"
    nontrivial if parts.size > 1 && name.include?('<')
    equal(Typelib.split_typename(name), parts, "split_typename")
    equal(Typelib.basename(name), parts.last, "basename")
    equal(Typelib.namespace(name), ns, "namespace")
    equal(Typelib.namespace(name, nil), ns, "namespace with nil")
    sep = pick(["::", ".", "_", "//"])
    equal(Typelib.namespace(name, sep), ns.gsub("/", sep), "namespace with #{sep}")
    equal(Typelib.namespace(name, sep, true), ns[1..-1].gsub("/", sep), "namespace with #{sep} without leading")
    equal(Typelib.namespace(name, "/", true), ns[1..-1], "namespace without leading separator")
    equal(Typelib.basename(name, sep), parts.last.gsub("/", sep), "basename with #{sep}")
    t = c35_registry.create_compound(name) { |c| c.add 'x', '/int32_t' }
    equal(t.name, name, "name")
    equal(t.full_name, name, "full_name")
    equal(t.full_name(sep), name.gsub("/", sep), "full_name(#{sep})")
    equal(t.full_name(sep, true), name[1..-1].gsub("/", sep), "full_name(#{sep}, true)")
    equal([t.namespace, t.basename, t.split_typename], [ns, parts.last, parts], "namespace, basename, split_typename of the type")
    equal([t.namespace(sep, true), t.basename(sep)], [ns[1..-1].gsub("/", sep), parts.last.gsub("/", sep)], "namespace and basename with #{sep}")
end
PBT.facet("export") do
    reg = c35_registry
    names = %w{ns Std N1 Type Other T2 my_type}
    tmpl = [[], [3], ['/double'], ['/ns/T', -1], [:self, 2]]
    paths = []   # lists of [method, args]
    range(1, 6).times do
        path = flip(1, 2) && !paths.empty? ? pick(paths).dup : []
        path = path[0, range(0, path.size)]
        (path.empty? ? range(1, 3) : range(1, 2)).times { path << [pick(names), pick([[], [], [], pick(tmpl)])] }
        paths << path if path.size <= 4
    end
    paths.uniq!
    types = {}
    int = reg.get('/int32_t')
    text = ->(path) { path.map { |m, a| "/#{m}" + (a.empty? ? "" : "<#{a.map { |x| x == :self ? int.name : x.to_s }.join(",")}>") }.join }
    paths.each { |p| types[text[p]] = reg.create_compound(text[p]) { |c| c.add 'x', int } }
    note { types.keys.inspect }
    nontrivial if paths.any? { |p| p.size > 1 } && types.size > 1
    mode = draw(4); asked = []
    root = Module.new
    conv = nil
    if flip(1, 4)
        conv = paths.sample(random: Random.new(draw(100))); k = Struct.new(:typelib)
        types[text[conv]].convert_to_ruby(k) { |v| k.new(v) }
    end
    case mode
    when 0 then Typelib::RegistryExport::Namespace.new.tap { |r| r.reset_registry_export(reg, nil, '/'); root = r }
    when 1 then reg.export_to_ruby(root)
    when 2 then reg.export_to_ruby(root) { |type, ruby| asked << type; type }
    else reg.export_to_ruby(root) { |type, ruby| asked << type; ruby }
    end
    walk = ->(path) { path.inject(root) { |r, (m, a)| r.send(m, *a.map { |x| x == :self ? int : x }) } }
    order = paths.shuffle(random: Random.new(draw(1000)))
    (order + (flip ? order : [])).each do |p|
        n = text[p]; got = walk[p]
        # below a converted type, the type given is what the conversion gives
        if p == conv
            equal(got.registry.equal?(reg), true, "registry of the exported #{n}")
            check(got.new(5).typelib == 5) { "#{n} is exported as #{PBT.short(got)} instead of the class it converts to" }
        else
            check(got.equal?(types[n])) { "#{n} is exported as #{PBT.short(got)}" }
            check(asked.include?(types[n])) { "the filter was not called for #{n}" } if mode > 1
        end
        if p.all? { |m, a| a.empty? && m =~ /\A[A-Z]/ } && !(conv && p != conv && p[0, conv.size] == conv) && flip(1, 3)
            got = p.inject(root) { |r, (m, _)| r.const_get(m) }
            check(p == conv || got.equal?(types[n])) { "#{n} is exported as the constant #{PBT.short(got)}" }
        end
    end
    # what does not exist
    base = flip ? [] : pick(paths); base = base[0, range(0, base.size)]
    bad = [pick(names + ['Nosuch']), pick([[], [7], ['/nosuch']])]
    n = text[base + [bad]]
    if types.keys.none? { |x| x == n || x.start_with?("#{n}/") } && !(base.empty? && n == '/ns' )
        e = refused("the unknown #{n}", Typelib::RegistryExport::NotFound, NoMethodError) { walk[base + [bad]] }
    end
end
PBT.facet("accessor") do
    reg = c35_registry
    pool = gen_types(reg, range(2, 7), %i{compound vector compound vector array enum chars})
    c = pool.select { |x| %i{compound array vector}.include?(x.kind) }
    t = c.reverse.max_by { |x| [x.parts.size, 20].min }
    next if !t
    m = gen_value(t); x = typelib(t, m)
    what = pick(C35::CRITERIA.keys); rb, md = C35::CRITERIA[what]
    note { "#{what} in #{t.name}: #{m.inspect}" }
    want = c35_find(t, m, []) { |y| md.call(y) }.map { |y, v| [y.name, y.encode(v)] }
    seen = []
    a = Typelib::Accessor.find_in_type(t.rb) { |y| fail!("#{y} is not a type") if !(y <= Typelib::Type); rb.call(y) }
    got = flip ? a.each(x).to_a : [].tap { |l| equal(a.each(x) { |y| l << y }.class, Typelib::Accessor, "result of each") }
    got.each { |y| check(y.kind_of?(Typelib::Type)) { "#{PBT.short(y)} is found" } }
    # strings have elements, but are not read by index
    equal(got.map { |y| [y.class.name, y.to_byte_array(merge_skip_copy: false)] }.sort, want.sort, "#{what} found")
    # they are the parts of the value
    if what == 'doubles' && !got.empty?
        y = pick(got); Typelib.copy(y, Typelib.from_ruby(4242.25, y.class))
        again = a.each(x).map { |z| z.to_ruby }
        check(again.include?(4242.25)) { "writing what was found does not change the value" }
    end
    nontrivial if want.size > 1
end
PBT.facet("templates") do
    t = cxx_template(range(1, 5))
    t = [t[0], t[1]] if t[1]
    spaces = [" ", "  ", "", ""]
    canon = cxx_text(t, -> { "" }); given = cxx_text(t, -> { pick(spaces) })
    note(given)
    name, args = Typelib::CXX.parse_template(given)
    equal(name, t[0], "name of #{given.inspect}")
    equal(args, (t[1] || []).map { |x| cxx_text(x, -> { "" }) }, "arguments of #{given.inspect}")
    nontrivial if canon.count(',') + canon.count('<') >= 2
end
PBT.facet("metadata") do
    reg = c35_registry
    pool = gen_types(reg, range(1, 4), %i{compound vector enum compound})
    spots = { [:alone] => Typelib::MetaData.new }; model = { [:alone] => {} }
    pool.last(3).each do |t|
        spots[[t.name]] = t.rb.metadata; model[[t.name]] = {}
        (t.kind == :compound ? t[:fields] : []).each { |n, _, _| spots[[t.name, n]] = t.rb.field_metadata[n]; model[[t.name, n]] = {} }
    end
    changes = 0; keys = Array.new(range(1, 4)) { pick(C35::KEYS) }.uniq; values = Array.new(range(2, 10)) { pick(C35::VALUES) }.uniq; places = Array.new(range(1, 6)) { pick(spots.keys) }.uniq
    (2 + size(18)).times do
        s = pick(places); x = spots[s]; m = model[s]; k = pick(keys).dup; v = Array.new(draw(5)) { pick(values).dup }
        how = draw(7); note { "#{s.inspect} #{how} #{k.inspect} #{v.inspect}" }; changes += 1
        case how
        when 0, 1 then x.add(k, *v); m[k] = ((m[k] || []) + v).uniq
        when 2 then x.set(k, *v); m[k] = v.uniq
        when 3 then x[k] = v[0] || "z"; m[k] = [v[0] || "z"]
        when 4 then flip ? x.clear(k) : x.delete(k); m.delete(k)
        when 5 then x.clear; m.clear
        else x.set(k); m[k] = []
        end
        m.each_key { |y| m[y] = m[y].map(&:dup) }
        v.each { |y| y << "changed" }
        q = pick(spots.keys); c35_meta(spots[q], model[q], q.inspect)
    end
    spots.each { |q, y| c35_meta(y, model[q], q.inspect) }
    nontrivial if changes >= 4
    derived = case draw(5)
              when 0 then Typelib::Registry.from_xml(reg.to_xml)
              when 1 then reg.dup
              when 2 then reg.minimal(pool.last.name)
              when 3 then Typelib::Registry.new(false).tap { |r| r.merge(reg) }
              else reg
              end
    spots.each_key do |n, f|
        next if n == :alone || !derived.include?(n)
        t = derived.get(n); x = f ? t.field_metadata[f] : t.metadata
        c35_meta(x, model[[n, f].compact], "#{n} #{f} of the derived registry")
        if !derived.equal?(reg)
            x.set('own', 'x'); equal(spots[[n, f].compact].include?('own'), false, "the metadata of the original changes with the copy"); x.clear('own')
        end
    end
end
