class Object
  def address; object_id end
end
