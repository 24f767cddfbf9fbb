class Module
  def attr_predicate(name, writable = false)
    base = name.to_s.chomp('?'); ivar = "@#{base}"
    define_method("#{base}?") { v = instance_variable_get(ivar); v ? true : false }
    define_method("#{base}=") { |v| instance_variable_set(ivar, v) } if writable
  end
end
