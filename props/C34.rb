# C34: specialisations and custom conversions of Ruby types.
# facet: values 2500 50000
# facet: mapping 2500 40000
# rule: conversions to a Ruby class (and back) are declared for random types before or right after they are created: by name, by element (name[], /std/vector<>), by regular expression, with and without filter. values: histories of reads and writes of values holding converted types at random places, with the Ruby objects, in place changes of them and the typelib values, against a model of plain Ruby data. mapping: random specialisations of instances and models; each must reach the types it matches, in every registry created later, and no other. Non-trivial: the root type holds a converted type (values); a declaration matches a type and misses another (mapping).
require 'gen'
module C34
    class Box
        attr_accessor :payload
        attr_reader :type
        def initialize(payload, type) @payload, @type = payload, type end
        def inspect; "Box(#{payload.inspect}, #{type})" end
    end
    # A declaration: key as typelib takes it, the filter, and whether it matches, given name, kind and element name
    Rule = Struct.new(:key, :filter, :test) do
        def options; filter ? { if: filter } : {} end
        def inspect; key.inspect + (filter ? " if ..." : "") end
    end
    def c34_rule(n)
        i = draw(n); nm = pick(["/T#{i}", "/ns/T#{i}"]); base = pick([nm, nm, nm, "/std/string", "/int32_t", "/double"])
        r = case draw(7)
            when 0, 1 then Rule.new(nm, nil, ->(t) { t.name == nm })
            when 2 then Rule.new(%r{/T#{i}\z}, nil, ->(t) { t.name =~ %r{/T#{i}\z} })
            when 3 then Rule.new("#{base}[]", nil, ->(t) { %i{array chars}.include?(t.kind) && t[:of] && t[:of].name == base })
            when 4 then Rule.new("/std/vector<#{base}>", nil, ->(t) { t.name == "/std/vector<#{base}>" })
            when 5 then Rule.new("/std/vector<>", ->(x) { x.deference.name == base }, ->(t) { t.kind == :vector && t[:of].name == base })
            else Rule.new(%r{\A/ns/}, nil, ->(t) { t.name.start_with?('/ns/') })
            end
        if !r.filter && flip(1, 4)
            lim = pick([8, 16, 1000, 0])
            return Rule.new(r.key, ->(x) { x.size < lim }, ->(t) { r.test.call(t) && t.size < lim })
        end
        r
    end
    # Runs the block, then forgets what it has declared
    def c34_isolated
        maps = %i{value_specializations type_specializations convertions_from_ruby convertions_to_ruby}.map { |m| Typelib.send(m) }
        sets = maps.flat_map { |m| [m.from_typename, m.from_array_basename, m.from_container_basename, m.from_regexp] }
        saved = sets.map { |h| h.map { |k, v| [k, v.dup] } }
        yield
    ensure
        sets.zip(saved) { |h, old| h.clear; old.each { |k, v| h[k] = v } } if saved
    end
    def c34_registry
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        reg
    end
    def boxed(t, v) Box.new(Marshal.load(Marshal.dump(v)), t.name) end
    def describe(t)
        t.parts.map { |x| [x.name + (x.box ? " boxed" : ""), x.kind == :compound ? x[:fields].map { |n, o, f| [n, o, f.name] } : x.kind == :enum ? x[:symbols] : nil] }.uniq.reject { |nm, d| !d && nm != t.name }.inspect
    end
    def c34_from(models) ->(b, type) { m = models.fetch(type.name); check(b.type == type.name) { "a Box for #{b.type} is converted to #{type.name}" }; type.from_buffer(m.encode(b.payload), merge_skip_copy: false) } end
    def c34_to(models) ->(v) { Box.new(models.fetch(v.class.name).decode(v.to_byte_array(merge_skip_copy: false)), v.class.name) } end
    # Arrays and vectors of converted elements are converted themselves (booleans do not count)
    def c34_converted?(t)
        return true if t.box
        case t.kind
        when :string, :chars then true
        when :compound then t[:fields].any? { |_, _, ft| c34_converted?(ft) }
        when :array, :vector then c34_converted?(t[:of])
        else false
        end
    end
    # What a getter gives for a model value
    def c34_seen(t, v, got, how)
        if t.box
            check(got.kind_of?(Box) && got.type == t.name) { "#{how}: got #{PBT.short(got)}, expected a Box of #{t.name}" }
            return equal(got.payload, v, "#{how}.payload")
        end
        case t.kind
        when :enum then equal(got, v && v.to_sym, how)
        when :int, :float, :bool, :string, :chars then equal(got, v, how)
        else
            if got.kind_of?(Typelib::Type)
                check(!c34_converted?(t) || t.kind == :compound) { "#{how}: got #{PBT.short(got)}, which is not converted" }
                check(got.kind_of?(t.rb)) { "#{how} is a #{got.class}, not a #{t.name}" }
                equal(t.decode(got.to_byte_array(merge_skip_copy: false)), v, how)
            elsif t.kind == :compound then fail!("#{how}: got #{PBT.short(got)}")
            else
                check(got.kind_of?(Array) && got.size == v.size) { "#{how}: got #{PBT.short(got)}, expected #{PBT.short(v)}" }
                got.each_with_index { |x, i| c34_seen(t[:of], v[i], x, "#{how}[#{i}]") }
            end
        end
    end
    def c34_natural(t, v)
        return boxed(t, v) if t.box
        case t.kind
        when :compound then typelib(t, v)
        when :enum then v.to_sym
        when :array, :vector then t.converted? ? v.map { |x| c34_natural(t[:of], x) } : typelib(t, v)
        else v.dup
        end
    end
    def c34_read(t, x, m)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            how = draw(6); note { "read #{n} (#{how})" }
            case how
            when 0 then c34_seen(ft, m[n], x.get(n), ".get('#{n}')")
            when 1 then c34_seen(ft, m[n], x[n.to_sym], "[:#{n}]")
            when 2 then c34_seen(ft, m[n], x.send(n), ".#{n}")
            when 3
                x.apply_changes_from_converted_types
                y = flip ? x.raw_get(n) : x.send("raw_#{n}")
                check(y.kind_of?(ft.rb)) { "raw_get('#{n}') is a #{y.class}" }
                equal(ft.decode(y.to_byte_array(merge_skip_copy: false)), m[n], "raw_get('#{n}')")
            when 4 then x.each_field { |fn, fv| c34_seen(t[:fields].find { |k, _| k == fn }[2], m[fn], fv, "each_field #{fn}") }
            else c34_read(ft, x.raw_get(n), m[n]) if %i{compound array vector}.include?(ft.kind) && (x.apply_changes_from_converted_types; true)
            end
        else
            how = draw(4); note { "read the elements (#{how})" }
            case how
            when 0 then m.each_with_index { |v, i| c34_seen(t[:of], v, x[i], "[#{i}]") }
            when 1 then l = []; x.each { |e| l << e }; equal(l.size, m.size, "number of elements"); l.each_with_index { |e, i| c34_seen(t[:of], m[i], e, "each #{i}") }
            when 2 then m.each_with_index { |v, i| y = x.raw_get(i); check(y.kind_of?(t[:of].rb)) { "raw_get(#{i}) is a #{y.class}" }; equal(t[:of].decode(y.to_byte_array(merge_skip_copy: false)), v, "raw_get(#{i})") }
            else
                i = draw(m.size + 1); n = draw(m.size - i + 1)
                x[i, n].each_with_index { |e, k| c34_seen(t[:of], m[i + k], e, "[#{i}, #{n}][#{k}]") } if t.kind == :array
            end
        end
    end
    # Changes what a converted field gives, in place. False if there is nothing to change
    def c34_in_place(t, got, m, at)
        if t.box then v = gen_value(t); note { "#{at}.payload = #{v.inspect}" }; got.payload = v; v
        elsif %i{array vector}.include?(t.kind) && !m.empty?
            i = draw(m.size)
            r = if t[:of].box && flip then c34_in_place(t[:of], got[i], m[i], "#{at}[#{i}]")
                else v = gen_value(t[:of]); note { "#{at}[#{i}] = #{v.inspect}" }; got[i] = c34_natural(t[:of], v); v end
            m.dup.tap { |l| l[i] = r }
        else m
        end
    end
    def c34_write(t, x, m)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            if ft.kind == :compound && !ft.box && flip then return c34_write(ft, x.send(n), m[n]) end
            if ft.converted? && ft.kind != :compound || ft.box
                if flip(1, 3)
                    m[n] = c34_in_place(ft, x.send(n), m[n], n)
                    return
                end
            elsif %i{array vector}.include?(ft.kind) && flip then return c34_write(ft, x.send(n), m[n]) end
            v = gen_value(ft); how = draw(5); note { "#{t.name}.#{n} <- #{v.inspect} (#{how})" }
            case how
            when 0 then x.set(n, ruby_form(ft, v))
            when 1 then x[n.to_sym] = ruby_form(ft, v)
            when 2 then x.send("#{n}=", c34_natural(ft, v))
            when 3 then x.raw_set(n, typelib(ft, v))
            else c34_converted?(ft) ? x.set(n, typelib(ft, v)) : x.send("#{n}=", ruby_form(ft, v))
            end
            m[n] = v
        when :array
            i = draw(m.size); v = gen_value(t[:of]); note { "#{t.name}[#{i}] <- #{v.inspect}" }
            x[i] = ruby_form(t[:of], v); m[i] = v
        when :vector
            v = gen_value(t[:of]); how = draw(4); i = m.empty? ? 0 : draw(m.size); note { "#{t.name} op #{how} #{i} #{v.inspect}" }
            case how
            when 0 then x.push(element_form(t[:of], v)); m.push(v)
            when 1 then x.concat([element_form(t[:of], v), element_form(t[:of], v)]); m.concat([v, Marshal.load(Marshal.dump(v))])
            when 2 then return if m.empty?; x[i] = element_form(t[:of], v); m[i] = v
            else x.clear; m.clear
            end
        end
    end
end
PBT::DSL.include C34
PBT.facet("values") do
    c34_isolated do
        n = range(2, 7); models = {}; one_way = flip(1, 4)
        note("only from Ruby") if one_way
        global = flip(2, 3); rules = Array.new(range(1, 3)) { c34_rule(n) }
        to, from = c34_to(models), c34_from(models)
        note { "#{global ? "global" : "type"} conversions #{rules.inspect}" }
        if global
            rules.each do |r|
                # options may come in place of the Ruby class
                Typelib.convert_from_ruby(C34::Box, r.key, r.options, &from)
                next if one_way
                flip ? Typelib.convert_to_ruby(r.key, C34::Box, r.options, &to) : Typelib.convert_to_ruby(r.key, r.options, &to)
            end
        end
        reg = c34_registry
        pool = gen_types(reg, n, %i{compound vector compound vector array enum chars compound}) do |t|
            models[t.name] = t
            next if !rules.any? { |r| r.test.call(t) }
            t.takes = true; t.box = !one_way
            if !global
                t.rb.convert_to_ruby(C34::Box, &to) if !one_way
                t.rb.convert_from_ruby(C34::Box, &from)
            end
        end
        c = pool.select { |x| %i{compound array vector}.include?(x.kind) }
        t = c.reverse.max_by { |x| [x.parts[1..-1].any?(&:takes) ? 20 : x.takes ? 10 : 0, x.parts.size].max }
        next if !t
        nontrivial if t.parts.any?(&:takes)
        label("converted #{t.parts.find(&:box).kind}") if t.parts.any?(&:box)
        m = gen_value(t); note { "#{describe(t)}: #{m.inspect}" }
        x = typelib(t, m)
        c34_seen(t, m, Typelib.to_ruby(x, t.rb), "to_ruby")
        (2 + size(14)).times do
            flip ? c34_write(t, x, m) : c34_read(t, x, m)
            case draw(5)
            when 0 then equal(t.decode(x.to_byte_array(merge_skip_copy: false)), m, "the value after the last step")
            when 1 then equal(t.decode((y = x.dup).to_byte_array(merge_skip_copy: false)), m, "dup after the last step")
            when 2 then check(x == typelib(t, m)) { "after the last step, the value differs from #{m.inspect}" }
            end
        end
        equal(t.decode(x.to_byte_array(merge_skip_copy: false)), m, "the value at the end")
        c34_seen(t, m, Typelib.to_ruby(x, t.rb), "to_ruby at the end")
        y = Typelib.from_ruby(c34_natural(t, m), t.rb)
        equal(t.decode(y.to_byte_array(merge_skip_copy: false)), m, "from_ruby of the converted value")
    end
end
PBT.facet("mapping") do
    c34_isolated do
        n = range(2, 8); decls = []; others = []
        range(1, 5).times do |i|
            r = c34_rule(n); model = flip(1, 3); decls << [r, model, m = :"pbt_#{i}"]
            note { "#{model ? "specialize_model" : "specialize"} #{r.inspect}" }
            body = proc { define_method(m) { |*a| [i, *a] } }
            model ? Typelib.specialize_model(r.key, r.options, &body) : Typelib.specialize(r.key, r.options, &body)
        end
        reg = c34_registry
        pool = gen_types(reg, n, %i{compound vector compound vector array enum})
        note { pool.drop(12).map { |t| describe(t) }.join("\n") }
        regs = [reg]
        regs << Typelib::Registry.from_xml(reg.to_xml) if flip
        regs << reg.dup if flip(1, 3)
        if flip(1, 3) then e = Typelib::Registry.new(false); e.merge(reg); regs << e end
        hits = misses = 0
        regs.each_with_index do |rg, k|
            order = draw(3)
            l = order == 0 ? pool : pool.reverse
            l.each do |t|
                rb = begin rg.build(t.name) rescue Typelib::NotFound end
                fail!("type #{t.name} is not in registry #{k}") if !rb
                decls.each do |r, model, m|
                    want = r.test.call(t) ? true : false
                    want ? hits += 1 : misses += 1
                    if model
                        equal(rb.respond_to?(m), want, "#{t.name} of registry #{k} has the methods of specialize_model #{r.inspect}")
                        equal(rb.send(m, 7), [m[-1].to_i, 7], "result of the method") if want
                    else
                        equal(rb.method_defined?(m), want, "values of #{t.name} of registry #{k} have the methods of specialize #{r.inspect}")
                        equal(rb.new.send(m, 7), [m[-1].to_i, 7], "result of the method") if want
                    end
                end
            end
        end
        nontrivial if hits > 0 && misses > 0
    end
end
