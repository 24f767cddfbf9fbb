class Module
  def const_defined_here?(n); const_defined?(n, false) end
end
