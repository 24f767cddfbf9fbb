# C37: types and values describe themselves from Ruby.
# facet: layout 2500 50000
# facet: display 2500 40000
# facet: hash 1500 20000
# facet: build 1500 30000
# facet: kinds 1500 20000
# facet: plugins 200 4000
# rule: random types and values in fresh registries. layout: memory_layout under every combination of options, expanded to one mark per byte, and its initialization part, against the model; with pointers and opaques; compatible_with_memcpy?. display: the text of pretty_print (normal and verbose) of types with documentation and of values, to_s and inspect, against the text made from the model, spaces aside. hash: Type.to_h under every combination of recursive and layout_info, against a description made from the model. build: containers built with of_size, insert and from model values; is_a?, minimal_registry. kinds: guess_type, handler_for and import with handlers of the test. plugins: directories of plugins, given by TYPELIB_RUBY_PLUGIN_PATH or in the load path. Non-trivial: the root has at least three parts (layout, display, build), at least two plugin files or options (plugins, kinds).
require 'gen'
require 'tmpdir'
require 'fileutils'
Typelib.logger.level = Logger::FATAL
module C37
    def c37_registry
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        reg
    end
    def c37_root(pool, kinds = %i{compound array vector enum})
        c = pool.select { |x| kinds.include?(x.kind) }
        t = c.empty? ? nil : flip(1, 3) ? c.last : c.reverse.max_by { |x| [x.parts.size, 16].min }
        nontrivial if t && t.parts.size >= 3
        note { c37_describe(t) } if t
        t
    end
    def c37_describe(t) t.parts.map { |x| [x.name, x.kind == :compound ? [x.size] + x[:fields].map { |n, o, f| [n, o, f.name] } : x.kind == :enum ? x[:symbols] : nil] }.uniq.reject { |nm, d| !d && nm != t.name }.inspect end
    # One mark per byte: D for data, . for padding; containers are [name, marks of an element]
    def c37_marks(t)
        case t.kind
        when :compound
            l = []; pos = 0
            t[:fields].each { |_, o, ft| l.concat(['.'] * (o - pos)); l.concat(c37_marks(ft)); pos = o + ft.size }
            l + ['.'] * (t.size - pos)
        when :array then c37_marks(t[:of]) * t[:n]
        when :vector then [[t.name, c37_marks(t[:of])]]
        when :string then [[t.name, ['D']]]
        when :opaque then ['.'] * t.size
        else ['D'] * t.size
        end
    end
    # Padding at the end of a type, without that of the last element of arrays
    def c37_trailing(t)
        return t.kind == :opaque ? t.size : 0 if t.kind != :compound
        pos = t.size
        t[:fields].reverse_each do |_, o, ft|
            n = c37_trailing(ft); pos = o + ft.size - n
            return t.size - pos if n < ft.size
            pos = o
        end
        t.size
    end
    def c37_expand(l)
        out = []
        while !l.empty?
            case op = l.shift
            when :FLAG_MEMCPY then out.concat(['D'] * l.shift)
            when :FLAG_SKIP then out.concat(['.'] * l.shift)
            when :FLAG_ARRAY then n = l.shift; out.concat(c37_expand(l) * n)
            when :FLAG_CONTAINER then n = l.shift.name; out << [n, c37_expand(l)]
            when :FLAG_END then return out
            else fail! "unknown operation #{op.inspect} in a layout"
            end
        end
        out
    end
    def c37_init_marks(t)
        case t.kind
        when :compound
            l = []; pos = 0
            t[:fields].each { |_, o, ft| l.concat(['.'] * (o - pos)); l.concat(c37_init_marks(ft)); pos = o + ft.size }
            l + ['.'] * (t.size - pos)
        when :array then c37_init_marks(t[:of]) * t[:n]
        when :vector, :string then [t.name]
        when :enum then [t] + [nil] * 3
        else ['.'] * t.size
        end
    end
    def c37_init_expand(l)
        out = []
        while !l.empty?
            case op = l.shift
            when :FLAG_INIT then n = l.shift; out.concat(l.shift(n))
            when :FLAG_INIT_SKIP then out.concat(['.'] * l.shift)
            when :FLAG_INIT_REPEAT then n = l.shift; out.concat(c37_init_expand(l) * n)
            when :FLAG_INIT_CONTAINER then out << l.shift.name
            when :FLAG_INIT_END then return out
            else fail! "unknown operation #{op.inspect} in an initialization layout"
            end
        end
        out
    end
    def c37_same_marks(got, want, merged, what)
        got.each_with_index do |g, i|
            w = want[i]
            ok = if g.kind_of?(Array) || w.kind_of?(Array) then g.kind_of?(Array) && w.kind_of?(Array) && g[0] == w[0] && c37_same_marks(g[1], w[1], merged, "#{what}, elements of #{w[0]}")
                 else g == w || (merged && w == '.' && g == 'D')
                 end
            check(ok) { "#{what}: operation at mark #{i} is for #{g.inspect}, expected #{w.inspect} (got #{got.inspect}, expected #{want.inspect})" }
        end
        equal(got.size, want.size, "length of the #{what} (got #{got.inspect}, expected #{want.inspect})")
        true
    end
    # Text
    def c37_squeeze(s) s.gsub(/\s+/, '') end
    def c37_doc(d) d ? "/**#{d.split("\n").join('*')}*/" : "" end
    DOCS = ["some text", "a\nb", "one\n\n two", "x, {y} <z>", "doc\nof\nthree"]
    # top: the documentation of types other than compounds is only given for the type that is asked for
    def c37_type_text(t, verbose, top, docs)
        d = docs[t.name]
        case t.kind
        when :compound
            c37_doc(d) + t.name + "{" + t[:fields].map { |n, o, ft| c37_doc(docs[[t.name, n]]) + n + (verbose ? "[#{o}]" : "") + "<" + c37_type_text(ft, false, false, docs) + ">" }.join(",") + "}"
        when :enum then t.name + "{" + t[:symbols].sort_by(&:last).map { |s, v| verbose && top ? "#{s}=#{v}" : s }.join(",") + "}"
        else (top ? c37_doc(d) : "") + t.name
        end
    end
    def c37_value_text(t, v)
        case t.kind
        when :compound then "{" + t[:fields].map { |n, _, ft| "#{n}=#{c37_value_text(ft, v[n])}" }.join(",") + "}"
        when :array, :vector then "[" + v.each_with_index.map { |x, i| "[#{i}]=#{c37_value_text(t[:of], x)}" }.join(",") + "]"
        when :enum then v.to_sym.inspect
        when :string, :chars then PP.singleline_pp(v, +"")
        else v.inspect
        end
    end
    def c37_pp(x, width, *args) o = +""; q = PP.new(o, width); x.pretty_print(q, *args); q.flush; o end
    # What to_h gives. full: the definition, or only the name and class of the type
    def c37_hash(t, full, o)
        kind = { compound: 'CompoundType', vector: 'ContainerType', string: 'ContainerType', array: 'ArrayType', chars: 'ArrayType', enum: 'EnumType', pointer: 'PointerType', opaque: 'OpaqueType' }.fetch(t.kind, 'NumericType')
        h = { name: t.name, class: "Typelib::#{kind}" }
        h[:size] = t.size if o[:layout_info]
        return h if !full
        sub = o[:recursive]; char = M.new(:int, '/int8_t', 1)
        case t.kind
        when :compound
            h[:fields] = t[:fields].map { |n, off, ft| f = { name: n, type: c37_hash(ft, sub, o) }; f[:offset] = off if o[:layout_info]; f }
        when :array then h[:length] = t[:n]; h[:element] = c37_hash(t[:of], sub, o)
        when :vector then h[:element] = c37_hash(t[:of], sub, o)
        when :chars then h[:length] = t.size
        when :enum then h[:values] = t[:symbols].map { |n, v| { name: n, value: v } }
        when :int then h[:size] = t.size; h[:integer] = true; h[:unsigned] = !!(t.name =~ /\A\/(uint|unsigned)/)
        when :bool then h[:size] = 1; h[:integer] = true; h[:unsigned] = true
        when :float then h[:size] = t.size; h[:integer] = false
        end
        h
    end
    # The order of enumeration values is not told, the element of texts depends on their character type
    def c37_norm(h)
        return h.map { |x| c37_norm(x) } if h.kind_of?(Array)
        return h if !h.kind_of?(Hash)
        r = h.map { |k, v| [k, k == :values ? v.sort_by { |x| x[:value] } : c37_norm(v)] }.to_h
        r.delete(:element) if r[:name] == '/std/string' || (r[:class] == 'Typelib::ArrayType' && r[:element] && r[:element][:name] =~ /\A\/(u?int8_t|char)\z/)
        r
    end
    WIDTHS = [1, 20, 79, 100000]
end
PBT::DSL.include C37
PBT.facet("layout") do
    reg = c37_registry
    pool = gen_types(reg, range(1, 7), %i{compound vector compound array enum chars})
    t = c37_root(pool) or next
    opts = %i{merge_skip_copy remove_trailing_skips}.map { |o| [o, draw(3)] }.reject { |_, x| x == 2 }.map { |o, x| [o, x == 1] }.to_h
    forbidden = nil
    if flip(1, 4) # something that has no layout by default
        k = pick(%i{pointer opaque}); base = pick(pool)
        x = k == :pointer ? M.new(:pointer, "#{base.name}*", 8) : M.new(:opaque, "/Hidden", range(1, 9))
        begin
            x.rb = k == :pointer ? reg.build(x.name) : reg.create_opaque(x.name, x.size)
        rescue Typelib::NotFound, ArgumentError # the name cannot be one of a pointer
            x = nil
        end
        if x
            fields = [["a", 0, t], ["b", t.size + draw(3), x]]; fields << ["c", fields.last[1] + x.size, pick(pool)] if flip
            sz = fields.last[1] + fields.last[2].size
            t = M.new(:compound, "/WithIt", sz, fields: fields)
            t.rb = reg.create_compound(t.name) { |b| fields.each { |n, o, ft| b.add(n, ft.rb, o) } }
            refused("the layout of a type that has a #{k}", ArgumentError) { t.rb.memory_layout(opts) }
            equal(t.rb.compatible_with_memcpy?, false, "compatible_with_memcpy? of a type that has a #{k}")
            other = k == :pointer ? :accept_opaques : :accept_pointers
            refused("the layout of a type that has a #{k} with #{other}", ArgumentError) { t.rb.memory_layout(opts.merge(other => true)) }
            opts[k == :pointer ? :accept_pointers : :accept_opaques] = true; forbidden = k; label k
        end
    end
    note { opts.inspect }
    mem, init = t.rb.memory_layout(opts)
    want = c37_marks(t); want.pop(c37_trailing(t)) if opts.fetch(:remove_trailing_skips, true)
    got = c37_expand(mem.dup)
    merged = opts.fetch(:merge_skip_copy, true)
    c37_same_marks(got, want, merged, "layout of #{t.name} with #{opts}")
    # the initialization
    want = c37_init_marks(t); got = c37_init_expand(init.dup)
    want.pop while want.last == '.'; got.pop while got.last == '.'
    equal(got.size, want.size, "length of the initialization of #{t.name} (#{got.inspect})")
    want.each_with_index do |w, i|
        if w.kind_of?(M)
            b = got[i, 4]
            check(b.all? { |y| y.kind_of?(Integer) && (-128..255) === y } && w[:symbols].value?(b.map { |y| y & 255 }.pack('C4').unpack1('l<'))) { "#{w.name} is initialized at #{i} with #{b.inspect}, which is none of its values #{w[:symbols]}" }
        elsif w then equal(got[i], w, "initialization of #{t.name} at #{i} (#{got.inspect})")
        end
    end
    equal(t.rb.compatible_with_memcpy?, !t.holds?(:vector, :string), "compatible_with_memcpy? of #{t.name}") if !forbidden
end
PBT.facet("display") do
    reg = c37_registry
    pool = gen_types(reg, range(1, 7), %i{compound vector compound array enum chars})
    t = c37_root(pool, %i{compound array vector}) or next
    docs = {}
    t.parts.uniq.each do |x|
        if flip(1, 3) && x.kind != :enum then docs[x.name] = pick(C37::DOCS).dup; x.rb.metadata.set('doc', docs[x.name]) end
        next if x.kind != :compound
        x[:fields].each { |n, _, _| if flip(1, 4) then docs[[x.name, n]] = pick(C37::DOCS); x.rb.field_metadata[n].set('doc', docs[[x.name, n]]) end }
    end
    x = flip(1, 3) ? pick(t.parts) : t; w = pick(C37::WIDTHS)
    equal(c37_squeeze(c37_pp(x.rb, w)), c37_squeeze(c37_type_text(x, false, true, docs)), "text of #{x.name}, #{w} columns wide")
    if %i{compound enum}.include?(x.kind)
        equal(c37_squeeze(c37_pp(x.rb, w, true)), c37_squeeze(c37_type_text(x, true, true, docs)), "verbose text of #{x.name}, #{w} columns wide")
    end
    m = gen_value(t); v = typelib(t, m); note { m.inspect }
    # the elements of parts that are converted to Ruby arrays have no index
    got = c37_squeeze(c37_pp(v, w)); want = c37_squeeze(c37_value_text(t, m))
    equal(got.gsub(/\[\d+\]=/, ''), want.gsub(/\[\d+\]=/, ''), "text of a value, #{w} columns wide")
    equal(got, want, "text of a value, #{w} columns wide") if !t.holds?(:string, :chars, :bool)
    check(v.raw_to_s.include?(t.name)) { "#{v.raw_to_s} does not name the type #{t.name}" }
    check(v.inspect.start_with?(v.raw_to_s)) { "#{v.inspect} does not start with #{v.raw_to_s}" }
    check(v.inspect.end_with?(": " + simple(t, m).inspect)) { "#{v.inspect} does not give the value #{simple(t, m).inspect}" }
    check(t.rb.to_s.include?(t.name) && t.rb.inspect.include?(t.name)) { "#{t.rb.inspect} does not name the type" }
    # values with pointers have no simple value
    ptr = begin
        reg.build("#{pick(pool).name}*")
    rescue Typelib::NotFound, ArgumentError # the name cannot be one of a pointer
        next
    end
    c = reg.create_compound('/WithPointer') { |b| b.add 'x', t.rb; b.add 'p', ptr }
    y = c.zero; s = y.inspect
    check(s.include?('/WithPointer')) { "#{s} does not name the type" }
    check(ptr.new.inspect.include?(ptr.name)) { "inspect of a pointer does not name its type" }
end
PBT.facet("hash") do
    reg = c37_registry
    pool = gen_types(reg, range(1, 7), %i{compound vector compound array enum chars})
    t = c37_root(pool) or next
    o = %i{recursive layout_info}.map { |k| [k, draw(3)] }.reject { |_, x| x == 2 }.map { |k, x| [k, x == 1] }.to_h
    if flip(1, 5)
        x = M.new(:opaque, "/Hidden", range(1, 9)); x.rb = reg.create_opaque(x.name, x.size)
        fields = [["a", 0, t], ["b", t.size + draw(3), x]]
        t = M.new(:compound, "/WithIt", fields.last[1] + x.size, fields: fields)
        t.rb = reg.create_compound(t.name) { |b| fields.each { |n, off, ft| b.add(n, ft.rb, off) } }
    end
    note { o.inspect }; label "full" if o.values == [true, true]
    equal(c37_norm(t.rb.to_h(o)), c37_norm(c37_hash(t, true, o)), "to_h(#{o}) of #{t.name}")
    equal(c37_norm(t.rb.to_h_minimal(o)), c37_norm(c37_hash(t, false, o)), "to_h_minimal(#{o}) of #{t.name}")
end
PBT.facet("build") do
    reg = c37_registry
    pool = gen_types(reg, range(1, 6), %i{compound vector compound array enum chars vector})
    t = c37_root(pool, %i{vector compound})
    t = gen_types(reg, 2, %i{vector}).last if !t || (t.kind != :vector && !flip(1, 4))
    if t.kind == :vector
        m = gen_value(t[:of]); n = pick([0, 1, 2, 3, 3, 10]); note { "#{n} times #{m.inspect}" }
        el = typelib(t[:of], m)
        x = t.rb.of_size(n, flip ? el : ruby_form(t[:of], m))
        check(x.class.equal?(t.rb)) { "of_size gives a #{x.class}" }
        equal(x.to_simple_value, Array.new(n) { simple(t[:of], m) }, "of_size(#{n}, #{m.inspect}) of #{t.name}")
        equal(t.rb.of_size(n).size, n, "of_size(#{n}) without element") if !t[:of].holds?(:enum)
        m2 = gen_value(t[:of])
        x.insert(element_form(t[:of], m2))
        equal(x.to_simple_value, Array.new(n) { simple(t[:of], m) } + [simple(t[:of], m2)], "insert")
        if n > 0 # the elements do not share anything
            m3 = gen_value(t[:of]); x[0] = element_form(t[:of], m3)
            equal(x.to_simple_value, [simple(t[:of], m3)] + Array.new(n - 1) { simple(t[:of], m) } + [simple(t[:of], m2)], "after the first element is changed")
        end
        equal(el.to_simple_value, simple(t[:of], m), "the element given to of_size") if el.kind_of?(Typelib::Type)
    else
        m = gen_value(t); x = typelib(t, m)
    end
    equal(Typelib::Registry.available_containers.sort, ['/std/string', '/std/vector'], "available containers")
    # A compound can be used in place of its first field
    chain = [t]; chain << chain.last[:fields][0][2] while chain.last.kind == :compound
    base = { compound: Typelib::CompoundType, vector: Typelib::ContainerType, string: Typelib::ContainerType, array: Typelib::ArrayType, chars: Typelib::ArrayType, enum: Typelib::EnumType, int: Typelib::NumericType, float: Typelib::NumericType, bool: Typelib::NumericType }
    names = pool.map(&:name) + ["#{t.name}x", t.name[0..-2], t.name[1..-1], ""]
    cases = names.uniq.map { |n| [n, chain.any? { |y| y.name == n }] } + names.uniq.map { |n| re = Regexp.new(Regexp.quote(n) + "\\z"); [re, chain.any? { |y| y.name =~ re }] } +
        base.values.map { |b| [b, chain.any? { |y| base[y.kind].equal?(b) }] } + pool.map { |y| [y.rb, chain.any? { |z| z.name == y.name }] } + [[Typelib::Type, true]]
    cases.each do |k, r|
        equal(!!t.rb.is_a?(k), r, "#{t.name}.is_a?(#{k.inspect})")
        equal(!!x.is_a?(k), r, "is_a?(#{k.inspect}) of a value of #{t.name}")
    end
    t.parts.each { |y| reg.alias("/alias/of#{y.name.tr('^a-zA-Z0-9', '_')}", y.name) if flip(1, 3) && !reg.include?("/alias/of#{y.name.tr('^a-zA-Z0-9', '_')}") }
    [true, false].each do |al|
        min = t.rb.minimal_registry(with_aliases: al)
        equal(min.each(with_aliases: true).map { |n, y| [n, y.name] }.sort, reg.minimal(t.name, al).each(with_aliases: true).map { |n, y| [n, y.name] }.sort, "names of minimal_registry(with_aliases: #{al})")
        equal(min.get(t.name) == t.rb, true, "the type in its minimal registry")
        need = t.parts.map(&:name) + (t.holds?(:chars, :string) ? ['/int8_t'] : [])
        check((need - min.each.map(&:name)).empty?) { "minimal_registry has no #{need - min.each.map(&:name)}" }
        have = min.each.map(&:name) - need - ['/int8_t']
        check(have.empty?) { "minimal_registry has #{have}, which #{t.name} does not need" }
    end
end
PBT.facet("kinds") do
    exts = { 'c' => %w{.c .cc .cxx .cpp .h .hh .hxx .hpp}, 'tlb' => %w{.tlb} }
    kind = pick(exts.keys); ext = pick(exts[kind])
    dir = pick(["", "/some/dir/", "with.dots/", "/a.tlb/", "../", "~x/".sub('~', '')]); base = pick(["file", "file.h", "a.b.tlb", ".hidden", "x.cc"])
    equal(Typelib::Registry.guess_type(dir + base + ext), kind, "type of #{dir + base + ext}")
    bad = pick([".txt", "", ".hx", ".TLB", ".tlb2", ".xml"])
    file = dir + pick(%w{file name a}) + bad
    refused("the type of #{file}", RuntimeError) { Typelib::Registry.guess_type(file) }
    equal(Typelib::Registry.handler_for(file, 'tlb'), 'tlb', "handler of the kind tlb")
    saved = Typelib::Registry::TYPE_HANDLERS.dup
    begin
        calls = []; own = ->(*a, **o) { calls << [a, o]; :done }
        k = pick(['mine', kind]); Typelib::Registry::TYPE_HANDLERS[k] = own
        reg = c37_registry; before = reg.to_xml
        given = k == kind && flip ? pick([nil, 'auto']) : k
        path = dir + base + (given == k ? pick([ext, bad]) : ext)
        opts = { define: ['A'], other: 3, merge: false, include: %w{x y} }.to_a.select { flip }.to_h; nontrivial if opts.size >= 2
        note { "#{path} as #{given.inspect} with #{opts}" }
        check(Typelib::Registry.handler_for(path, given).equal?(own)) { "handler_for(#{path}, #{given.inspect}) is not the handler of #{k}" }
        equal(reg.import(path, *(given == 'auto' && flip ? [] : [given]), **opts), :done, "what import gives")
        equal(calls.size, 1, "number of calls of the handler")
        (r, f, kk), o = calls[0]
        check(r.equal?(reg)) { "the handler is given another registry" }
        equal(f, File.expand_path(path), "file given to the handler")
        equal(o, { merge: true }.merge(opts), "options given to the handler")
        equal(kk, given, "kind given to the handler")
        equal(reg.to_xml, before, "the registry")
    ensure
        Typelib::Registry::TYPE_HANDLERS.replace(saved)
    end
end
PBT.facet("plugins") do
    $c37_loaded = []; path = $LOAD_PATH.dup; env = ENV['TYPELIB_RUBY_PLUGIN_PATH']
    err = STDERR.dup
    Dir.mktmpdir("c37") do |root|
        begin
            want = []; dirs = []; count = 0
            plugin = ->(d, name) { FileUtils.mkdir_p(File.join(root, d)); File.write(File.join(root, d, name), "$c37_loaded << #{"#{d}/#{name}".inspect}\n"); count += 1; "#{d}/#{name}" }
            draw(4).times do |i|
                d = "dir#{i}"; dirs << File.join(root, d); label "dirs"
                if flip
                    want << plugin[d, 'typelib_plugin.rb']
                    plugin[d, 'other.rb'] if flip       # only the specific file is loaded
                else
                    FileUtils.mkdir_p(File.join(root, d)); draw(3).times { |j| want << plugin[d, "p#{j}.rb"] }
                    File.write(File.join(root, d, 'not_ruby.txt'), '')
                end
            end
            draw(3).times do |i|   # found in the load path
                want << plugin["lib#{i}/sub", 'typelib_plugin.rb']; $LOAD_PATH << File.join(root, "lib#{i}")
            end
            nontrivial if count >= 2
            dirs.empty? ? ENV.delete('TYPELIB_RUBY_PLUGIN_PATH') : ENV['TYPELIB_RUBY_PLUGIN_PATH'] = dirs.join(':')
            note { want.inspect }
            STDERR.reopen('/dev/null')
            Typelib.load_typelib_plugins(force: true)
            equal($c37_loaded.sort, want.sort, "plugins that are loaded")
            Typelib.load_typelib_plugins(force: flip)
            equal($c37_loaded.sort, want.sort, "plugins that are loaded the second time")
        ensure
            STDERR.reopen(err); err.close
            $LOAD_PATH.replace(path); ENV['TYPELIB_RUBY_PLUGIN_PATH'] = env
        end
    end
end
