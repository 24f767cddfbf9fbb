# C31: values held from Ruby never reach memory that is gone.
# facet: values 2400 50000
# facet: types 1500 20000
# facet: released 1200 20000
# rule: values: several values of random types, a model of plain data for each, and a table of wrappers of their parts (fields, elements, elements of elements, casts, pointers to them) that are kept or dropped at random. Random steps write through any wrapper (raw_set, copy, push, concat, erase, delete_if, clear, zero!, from_buffer, raw_memcpy), drop values while wrappers of their parts are kept, break out of iterations, and run the garbage collector (full, lazy, minor at every allocation). After each step every wrapper that is kept either reads the model at its place or is invalidated, which is only accepted for wrappers below a container at or below the place that was written and required for elements that are gone. types: types, fields, metadata and values of random registries are kept while the registry is dropped and collected, then used. released: a random program (of the same kinds of steps) is run 20 times to warm up, then 60 times on values of at least 8 KB, everything is dropped and collected: the number of known memory zones and the allocated memory do not grow each time this is done again. Everything runs with AddressSanitizer. Non-trivial: at least two writes and one collection with two wrappers or more (values), something used after the collection of its registry (types), a program of two steps or more (released).
require 'gen'
module C31
    Root = Struct.new(:t, :w, :m, :shut, :id)
    Held = Struct.new(:root, :path, :w, :t, :how, :dead, :cast)

    def fresh(n = range(1, 6))
        reg = Typelib::Registry.new(false)
        Typelib::Registry.add_standard_cxx_types(reg)
        return reg, gen_types(reg, n)
    end
    def describe(t)
        t.parts.map { |x| [x.name, x.kind == :compound ? x[:fields].map { |n, o, f| [n, o, f.name] } : x.kind == :enum ? x[:symbols] : nil] }.uniq.reject { |nm, d| !d && nm != t.name }.inspect
    end
    def container?(t) t.kind == :vector end
    # Type and value in the model at a path, or nil when there is none
    def at(t, m, path)
        path.each do |p|
            case t.kind
            when :compound then t = t[:fields].find { |n, _| n == p }[2]; m = m[p]
            else
                return nil if !(p < m.size)
                t = t[:of]; m = m[p]
            end
        end
        [t, m]
    end
    def set_at(root, path, v)
        if path.empty? then root.m = v
        else at(root.t, root.m, path[0..-2])[1][path.last] = v
        end
    end
    # Is invalidation of h accepted when the place p of its root was written?
    def may_die?(h, p)
        t = h.root.t
        h.path.each_with_index do |x, i|
            return true if container?(t) && h.path[0, i][0, p.size] == p && i >= p.size
            t = t.kind == :compound ? t[:fields].find { |n, _| n == x }[2] : t[:of]
        end
        false
    end
    def inv(h) "#{h.how} (#{h.t.name} at #{h.path.inspect} of #{h.root.id})" end
    def verify(written_root, written_path)
        @held.each do |h|
            tm = at(h.root.t, h.root.m, h.path)
            if h.w.invalidated?
                h.dead ||= begin
                    ok = h.root.shut || (h.root.equal?(written_root) && may_die?(h, written_path))
                    check(ok) { "#{inv(h)} is invalidated, nothing it depends on was changed" }
                    refused("to_byte_array of the invalidated #{inv(h)}", TypeError) { h.w.to_byte_array }
                    refused("to_simple_value of the invalidated #{inv(h)}", TypeError) { h.w.to_simple_value }
                    refused_when_dead(h)
                    true
                end
                next
            end
            check(!h.dead) { "#{inv(h)} was invalidated and is not any more" }
            check(tm) { "#{inv(h)} still gives access to an element that was removed" }
            if flip
                equal(h.w.to_byte_array(merge_skip_copy: false), tm[0].encode(tm[1]), inv(h))
            else
                equal(h.w.to_simple_value, simple(tm[0], tm[1]), inv(h))
            end
        end
        @held.delete_if { |h| h.dead && flip(1, 4) }
        @roots.each { |r| equal(r.w.to_byte_array(merge_skip_copy: false), r.t.encode(r.m), r.id) if r.w }
    end
    def refused_when_dead(h)
        x = h.w; y = h.t.rb.new
        what, op = pick([
            ["from_buffer", -> { x.from_buffer(y.to_byte_array) }], ["zero!", -> { x.zero! }], ["copy to", -> { Typelib.copy(x, y) }], ["copy from", -> { Typelib.copy(y, x) }],
            ["dup", -> { x.dup }], ["compare", -> { Typelib.compare(x, y) }], ["compare with", -> { Typelib.compare(y, x) }], ["==", -> { x == y }], ["memory_eql?", -> { y.memory_eql?(x) }],
            ["to_csv", -> { x.to_csv }], ["endian_swap", -> { x.endian_swap }], ["endian_swap!", -> { x.endian_swap! }], ["to_ptr", -> { x.to_ptr }], ["to_ruby", -> { x.to_ruby }],
            *({ compound: [["raw_get", -> { x.raw_get(h.t[:fields][0][0]) }], ["raw_set", -> { x.raw_set(h.t[:fields][0][0], h.t[:fields][0][2].rb.new) }], ["raw_each_field", -> { x.raw_each_field { } }]],
                array: [["raw_get", -> { x.raw_get(0) }], ["raw_each", -> { x.raw_each { } }], ["raw_set", -> { x.raw_set(0, h.t[:of].rb.new) }]],
                vector: [["raw_get", -> { x.raw_get(0) }], ["raw_each", -> { x.raw_each { } }], ["raw_set", -> { x.raw_set(0, h.t[:of].rb.new) }], ["push", -> { x.push(h.t[:of].rb.new) }], ["concat", -> { x.concat([h.t[:of].rb.new]) }],
                         ["erase", -> { x.erase(h.t[:of].rb.new) }], ["delete_if", -> { x.delete_if { } }], ["clear", -> { x.clear }], ["size", -> { x.size }], ["raw_memcpy", -> { x.raw_memcpy(y.to_memory_ptr.zone_address, h.t[:of].size) }]],
            }[h.t.kind] || [])])
        refused("#{what} of the invalidated #{inv(h)}", TypeError, &op)
    end
    def new_root(pool)
        t = gen_pick(pool)
        3.times { t = gen_pick(pool) if !t.holds?(:vector) }
        v = gen_value(t)
        r = Root.new(t, typelib(t, v), v, false, "value #{@count += 1}")
        note { "#{r.id} = #{PBT.short(v)} of #{describe(t)}" }
        @roots << r
        @held << Held.new(r, [], r.w, t, 'root')
    end
    # A child of a wrapper that is held
    def child(h)
        t, m = at(h.root.t, h.root.m, h.path)
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields])
            w = case draw(3)
                when 0 then h.w.raw_get(n)
                when 1 then h.w.send("raw_#{n}")
                else x = nil; h.w.raw_each_field { |k, v| x = v if k == n }; x end
            Held.new(h.root, h.path + [n], w, ft, "field #{n}", nil, h.cast)
        when :array, :vector
            return if m.empty?
            i = draw(m.size)
            w = case draw(4)
                when 0 then x = nil; h.w.raw_each.each_with_index { |v, k| x = v if k == i }; x
                when 1 then k = -1; h.w.raw_each { |v| break v if (k += 1) == i }
                else h.w.raw_get(i) end
            Held.new(h.root, h.path + [i], w, t[:of], "element #{i}", nil, h.cast)
        end
    end
    def no_zero?(t) t.parts.any? { |x| x.kind == :enum && !x[:symbols].has_value?(0) } end
    # A typelib value for v: a new one, or one of those that are held
    def source(t, v) typelib(t, v) end
    def write(h)
        t, m = at(h.root.t, h.root.m, h.path)
        w = h.w
        case weighted(2, 1, 1, 6, 2)
        when 4
            o = pick(live)
            return if !o.t.rb.equal?(t.rb) || o.cast
            note { "copy #{inv(o)} to #{inv(h)}" }
            v = copy(at(o.root.t, o.root.m, o.path)[1])
            Typelib.copy(w, o.w); set_at(h.root, h.path, v)
            return h.path
        when 0
            v = gen_value(t)
            note { "copy #{PBT.short(v)} to #{inv(h)}" }
            Typelib.copy(w, typelib(t, v)); set_at(h.root, h.path, v)
            return h.path
        when 1
            return if no_zero?(t)
            note { "zero! #{inv(h)}" }
            w.zero!; set_at(h.root, h.path, t.zero)
            return h.path
        when 2
            v = gen_value(t)
            note { "from_buffer #{PBT.short(v)} to #{inv(h)}" }
            w.from_buffer(typelib(t, v).to_byte_array); set_at(h.root, h.path, v)
            return h.path
        end
        case t.kind
        when :compound
            n, _, ft = pick(t[:fields]); v = gen_value(ft)
            note { "raw_set #{n} = #{PBT.short(v)} of #{inv(h)}" }
            case draw(3)
            when 0 then w.raw_set(n, typelib(ft, v))
            when 1 then w.send("raw_#{n}=", typelib(ft, v))
            else Typelib.copy(w.raw_get(n), typelib(ft, v)) end
            m[n] = v
            return h.path + [n]
        when :array
            i = draw(m.size); v = gen_value(t[:of])
            note { "raw_set #{i} = #{PBT.short(v)} of #{inv(h)}" }
            w.raw_set(i, typelib(t[:of], v)); m[i] = v
            return h.path + [i]
        when :vector then return write_vector(h, w, t, m)
        else
            v = gen_value(t)
            note { "copy #{PBT.short(v)} to #{inv(h)}" }
            Typelib.copy(w, typelib(t, v)); set_at(h.root, h.path, v)
            return h.path
        end
    end
    def write_vector(h, w, t, m)
        e = t[:of]
        case weighted(3, 3, 2, 2, 3, 2, 1, 2, 2)
        when 0
            v = gen_value(e); note { "push #{PBT.short(v)} to #{inv(h)}" }
            w.push(element_form(e, v)); m << v
        when 1
            l = Array.new(range(1, 9)) { gen_value(e, 2) }; note { "concat #{PBT.short(l)} to #{inv(h)}" }
            w.concat(l.map { |v| element_form(e, v) }); m.concat(l)
        when 2
            return if m.empty?
            if flip(1, 3)
                if flip(1, 4) && e.kind != :enum
                    note { "concat #{inv(h)} to itself" }
                    w.concat(w); m.concat(copy(m))
                    return h.path
                end
                l = Array.new(range(1, 6)) { draw(m.size) }; note { "concat the elements #{l.inspect} of itself to #{inv(h)}" }
                v = l.map { |i| copy(m[i]) }
                w.concat(l.map { |i| w.raw_get(i) }); m.concat(v)
                return h.path
            end
            i = draw(m.size); note { "push the element #{i} of itself to #{inv(h)}" }
            v = copy(m[i])
            w.push(w.raw_get(i)); m << v
        when 3
            note { "clear #{inv(h)}" }
            w.clear; m.clear
        when 4
            return if m.empty?
            i = draw(m.size); v = gen_value(e); note { "raw_set #{i} = #{PBT.short(v)} of #{inv(h)}" }
            w.raw_set(i, element_form(e, v)); m[i] = v
            return h.path + [i]
        when 5
            return if m.empty? || e.holds?(:float)
            v = flip(3, 4) ? pick(m) : gen_value(e); note { "erase #{PBT.short(v)} of #{inv(h)}" }
            i = m.index { |x| e.encode(x) == e.encode(v) }
            equal(w.erase(element_form(e, v)), !i.nil?, "erase")
            m.delete_at(i) if i
        when 6
            # Keeps a part of what the block gets
            keep = Array.new(m.size) { flip }
            note { "delete_if #{keep.inspect} of #{inv(h)}" }
            i = -1; grab = flip ? draw(m.size + 1) : -1; got = nil
            w.delete_if { |x| i += 1; got = [x, i] if i == grab && x.kind_of?(Typelib::Type); keep[i] }
            k = -1; m.delete_if { k += 1; keep[k] }
            if got && got[0].kind_of?(e.rb)
                # The wrapper given to the block: either it reads some element, or it is gone
                @grabbed << got[0] if @grabbed.size < 6
            end
        when 7
            return if m.empty?
            # Leaves the iteration with an exception
            stop = draw(m.size); del = Array.new(m.size) { flip }; i = -1
            note { "delete_if of #{inv(h)} raises at #{stop}" }
            begin
                w.delete_if { |x| i += 1; raise IndexError, "stop" if i == stop; del[i] }
                fail! "delete_if does not let the exception through"
            rescue IndexError
            end
            # Which elements are left is not specified, each one has to be one of those that were there
            now = w.size
            check(now <= m.size && now >= m.size - del[0, stop].count(true)) { "#{now} elements of #{m.size} are left when delete_if is left at #{stop}" }
            vals = now.times.map { |k| w.raw_get(k).to_byte_array(merge_skip_copy: false) }
            enc = m.map { |x| e.encode(x) }
            l = vals.map { |b| k = enc.index(b) or fail!("an element that was not there appears when delete_if is left"); copy(m[k]) }
            m.replace(l)
        else
            return if e.holds?(:vector, :string, :array, :compound, :chars) || e.kind == :enum || m.equal?(nil)
            l = Array.new(size(20)) { gen_value(e) }; note { "raw_memcpy of #{PBT.short(l)} to #{inv(h)}" }
            buf = l.map { |v| e.encode(v) }.join.b
            return if buf.empty?
            es = buf.bytesize / l.size
            refused("raw_memcpy of a part of an element", ArgumentError) { w.raw_memcpy(Fiddle::Pointer[buf].to_i, buf.bytesize - range(1, es - 1)) } if es > 1 && flip(1, 3)
            w.raw_memcpy(Fiddle::Pointer[buf].to_i, buf.bytesize); m.replace(l)
        end
        h.path
    end
    def copy(m)
        case m
        when Array then m.map { |x| copy(x) }
        when Hash then Hash[m.map { |k, v| [k, copy(v)] }]
        when String then m.dup
        else m
        end
    end
    def collect
        @collections += 1
        case weighted(4, 2, 1)
        when 0 then GC.enable; GC.start; GC.disable
        when 1 then GC.enable; GC.start(full_mark: true, immediate_sweep: false)   # left enabled: the sweep goes on
        else
            GC.enable; GC.stress = 1
            begin Array.new(3) { |i| "a" * (40 + i) } ensure GC.stress = false end
        end
    end
    def live; @held.select { |h| !h.dead } end
end
PBT::DSL.include C31
require 'fiddle'
PBT.facet 'values' do
    reg, pool = fresh(range(2, 7))
    reg2 = Typelib::Registry.new(false); reg2.merge(reg)
    @roots, @held, @grabbed, @count, @collections, @strings, @pointers = [], [], [], 0, 0, [], []
    new_root(pool); writes = 0; rich = false
    (8 + size(30)).times do
        GC.disable if flip(1, 3)
        wr, wp = nil, nil
        case weighted(2, 6, 2, 8, 4, 2, 1, 1, 1, 1)
        when 0 then new_root(pool) if @roots.size < 5
        when 1
            next if live.empty?
            x = child(pick(live)) or next
            note { "hold #{inv(x)}" }
            check(x.w.class.name == x.t.name) { "#{inv(x)} is a #{x.w.class}" }
            @held << x if @held.size < 24
        when 2
            next if @held.empty?
            i = draw(@held.size); note { "drop #{inv(@held[i])}" }
            @held.delete_at(i)
        when 3
            next if live.empty?
            h = pick(live)
            next if h.cast
            wp = write(h) or next
            wr = h.root; writes += 1
            # Views with another type do not follow what happens to the elements
            @held.delete_if { |x| x.cast && x.root.equal?(wr) }
        when 4 then note "collect"; collect; rich ||= live.size > 1
        when 5
            next if @roots.empty?
            r = pick(@roots); note { "drop #{r.id}" }
            r.w = nil; @held.delete_if { |h| h.root.equal?(r) && h.path.empty? && h.how == 'root' }
        when 6
            # Values of the same type with new memory
            next if live.empty?
            h = pick(live); next if h.cast; t, m = at(h.root.t, h.root.m, h.path)
            d = flip ? h.w.dup : (x = h.t.rb.new; Typelib.copy(x, h.w); x)
            r = C31::Root.new(t, d, copy(m), false, "value #{@count += 1}")
            note { "#{r.id} = copy of #{inv(h)}" }
            @roots << r; @held << C31::Held.new(r, [], d, t, 'root')
        when 7
            next if live.empty?
            h = pick(live); next if h.cast; p = h.w.to_ptr
            note { "pointer to #{inv(h)}" }
            check(p.deference.equal?(h.w)) { "to_ptr.deference of #{inv(h)} is not the value" }
            if flip
                q = p.class.wrap(p.to_memory_ptr)
                d = q.deference
                equal(d.to_simple_value, h.w.to_simple_value, "what a second pointer to #{inv(h)} gives")
                # Only the pointer keeps what it points to
                if h.path.empty? && flip
                    r = C31::Root.new(h.t, h.w.dup, copy(h.root.m), true, "value #{@count += 1}")
                    @pointers << [h.t, p.class.wrap(r.w.to_memory_ptr.to_ptr), r.m]
                    note { "keeps a pointer to a copy of #{inv(h)}" }
                end
            end
        when 9
            next if live.empty?
            h = pick(live)
            next if h.cast || @held.size >= 24
            note { "hold a view of #{inv(h)} with a type of another registry" }
            c = h.w.cast(reg2.get(h.t.name))
            check(c.class.equal?(reg2.get(h.t.name)) && !c.equal?(h.w)) { "cast gives a #{c.class}" }
            @held << C31::Held.new(h.root, h.path, c, h.t, "view", nil, true)
        else
            # Wraps the memory of a Ruby string
            t = pool[0]; n = range(1, 40)
            a = Array.new(n) { t.rb.wrap(([7].pack('l') * pick([1, 20, 400])).to_memory_ptr) }
            a.each { |x| equal(x.to_simple_value, 7, "value in a string") }
            @strings << a.last
            a = nil
            note "keeps a value in a string"
        end
        @strings.each { |x| equal(x.to_simple_value, 7, "value in a string") }
        @pointers.each { |t, p, m| equal(p.deference.to_byte_array(merge_skip_copy: false), t.encode(m), "value a pointer gives access to") }
        # What the blocks of delete_if got, before the values they come from can be gone
        @grabbed.each do |g|
            next if g.invalidated?
            begin g.to_byte_array rescue TypeError end
        end
        verify(wr, wp)
        @roots.delete_if { |r| !r.w && @held.none? { |h| h.root.equal?(r) } }
    end
    GC.disable
    label writes > 8 ? "over 8 writes" : "1-8 writes"
    nontrivial if writes > 1 && rich && @collections > 0
end

PBT.facet 'released' do
    reg, pool = fresh(range(1, 4))
    big = reg.build('/int8_t[8192]')
    inner = gen_pick(pool)
    elt = M.new(:compound, '/Elt', 0, fields: [])
    elt.rb = reg.create_compound('/Elt') { |b| b.add 'big', big; b.add 'v', inner.rb }
    vec = reg.create_container('/std/vector', elt.rb)
    vv = reg.create_container('/std/vector', vec)
    root_t = reg.create_compound('/Root') { |b| b.add 'l', vec; b.add 'e', elt.rb; b.add 'll', vv; b.add 'a', reg.build('/Elt[2]') }
    reg2 = Typelib::Registry.new(false); reg2.merge(reg); cast_t = reg2.get('/Root')
    iv = Array.new(3) { gen_value(inner) }
    program = Array.new(range(1, 8)) do
        [draw(26), draw(3), draw(3)]
    end
    note { "program #{program.inspect} with fields #{inner.name}" }
    run = lambda do |keep|
        x = root_t.new; e = elt.rb.new
        program.each do |op, i, j|
            case op
            when 0 then (1 + i).times { x.raw_get('l').push(x.raw_get('e')) }
            when 1 then x.raw_get('l').concat([e] * (i + 1))
            when 2 then x.raw_get('ll').push(x.raw_get('l'))
            when 3 then x.raw_get('l').each { |y| keep << y << y.raw_get('v') }
            when 4 then x.raw_get('ll').raw_each { |y| y.raw_each { |z| keep << z } }
            when 5 then x.raw_get('l').clear
            when 6 then x.raw_get('ll').clear
            when 7 then k = -1; x.raw_get('l').delete_if { |y| keep << y; (k += 1) % 2 == i % 2 }
            when 8 then x.zero! if !no_zero?(inner)
            when 9 then x.from_buffer(x.to_byte_array)
            when 10 then x = x.dup
            when 11 then y = root_t.new; Typelib.copy(y, x); keep << y.raw_get('l') << y.raw_get('a').raw_get(j % 2)
            when 12 then keep << x.to_ptr.deference
            when 13 then keep << x.raw_get('e').to_ptr
            when 14 then keep << x.cast(cast_t).raw_get('l')
            when 15 then e.raw_set('v', typelib(inner, iv[i]))
            when 16 then x.raw_get('e').raw_set('v', typelib(inner, iv[j])) ; keep << x.raw_get('e').raw_get('v')
            when 17 then begin x.raw_get('l').push(x) rescue ArgumentError end
            when 18 then begin x.raw_get('l').delete_if { raise IndexError } rescue IndexError end
            when 19 then x.raw_get('l').raw_each { |y| break }
            when 20 then begin x.from_buffer("abc") rescue ArgumentError end
            when 21 then keep << x.raw_get('a').raw_get(1); x = root_t.new
            when 22 then begin x.invalidate rescue ArgumentError end
            when 23 then x.raw_get('l').raw_each { |y| y.raw_get('big') }; x.raw_get('l').push(e)
            when 24 then x.raw_get('l').raw_set(0, e) if !x.raw_get('l').empty?
            when 25 then x.raw_get('l').erase(e) if !inner.holds?(:float)
            end
        end
        nil
    end
    times = lambda { |n| n.times { keep = []; run.call(keep); keep.clear } ; nil }
    clean = lambda { GC.enable; GC.start; GC.start; GC.disable; nil }
    times.call(20); clean.call
    # A value that is still seen on the stack is not a leak: only what grows each time is
    z = b = nil
    4.times do
        zones, bytes = Typelib::MemoryZone.table_size, PBT.live_bytes
        times.call(60); clean.call
        z, b = Typelib::MemoryZone.table_size - zones, PBT.live_bytes - bytes
        break if z < 40 && b < 300_000
    end
    check(z < 40) { "#{z} memory zones are left by 60 runs" }
    check(b < 300_000) { "#{b} bytes are left by 60 runs (and #{z} memory zones)" }
    label b > 100_000 ? "over 100 kB" : "less"
    nontrivial if program.size > 1
end

PBT.facet 'types' do
    kept = []
    used = 0
    range(1, 3).times do |k|
        reg, pool = fresh(range(1, 5))
        gen_meta(reg, pool)
        size(8).times do
            t = gen_pick(pool)
            case draw(6)
            when 0 then kept << [:type, t.rb, t]
            when 1 then kept << [:metadata, t.rb.metadata, t.note || {}]
            when 2
                next if t.kind != :compound
                n, _, ft = pick(t[:fields])
                kept << [:field_metadata, t.rb.field_metadata[n], { n => [n] }]
            when 3 then v = gen_value(t); kept << [:value, typelib(t, v), t, v]
            when 4
                next if t.kind != :compound && t.kind != :vector && t.kind != :array
                kept << [:sub, t.kind == :compound ? t.rb[t[:fields].last[0]] : t.rb.deference, t.kind == :compound ? t[:fields].last[2] : t[:of]]
            else
                p = t.rb.to_ptr
                kept << [:pointer, p, t]
            end
        end
        pool.each { |t| t.rb = nil }
        reg = pool = nil
        GC.enable; GC.start(immediate_sweep: flip); GC.disable
        # Something else takes the memory
        r2, _ = fresh(1); r2.create_compound("/Filler#{k}") { |b| b.add 'x', '/double' }
        kept.each do |what, x, t, v|
            used += 1
            case what
            when :type, :sub
                equal(x.name, t.name, "name of a kept type"); equal(x.size, t.size, "size of #{t.name}")
                equal(x.registry.get(t.name).equal?(x), true, "#{t.name} found again in its registry")
                y = x.new
                check(y.kind_of?(x)) { "#{t.name}.new" }
                x.metadata.set('seen', 'yes'); equal(x.metadata.get('seen'), ['yes'], "metadata of #{t.name}"); x.metadata.clear('seen')
            when :metadata
                t.each { |k2, l| equal(x.get(k2).sort, l.sort, "metadata #{k2} of a kept type") }
                equal(x.keys.sort, t.keys.sort, "metadata keys")
            when :field_metadata
                t.each { |k2, l| equal(x.get(k2), l, "metadata of a kept field") }
                x.add 'other', 'v'; equal(x.get('other'), ['v'], "metadata of a kept field"); x.clear('other')
            when :value
                equal(x.to_byte_array(merge_skip_copy: false), t.encode(v), "kept value")
                equal(x.class.name, t.name, "class of a kept value")
                check(x.class.registry.include?(t.name)) { "registry of a kept value" }
            when :pointer
                equal(x.deference.name, t.name, "what a kept pointer type points to")
            end
        end
        kept.delete_if { flip(1, 3) }
    end
    nontrivial if used > 0
end
module C31
    def gen_meta(reg, pool)
        pool.each do |t|
            if flip(1, 3)
                t.note = {}
                range(1, 3).times { |i| t.note["k#{i}"] = Array.new(range(1, 2)) { |j| "value #{j} of #{t.name}" }; t.rb.metadata.set("k#{i}", *t.note["k#{i}"]) }
            end
            t[:fields].each { |n, _, _| t.rb.field_metadata[n].set(n, n) } if t.kind == :compound
        end
    end
end
