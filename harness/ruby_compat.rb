# File.exists? and Dir.exists? were removed in Ruby 3.2; the Rakefile and tests use them.
class File; class << self; alias exists? exist? unless method_defined?(:exists?); end; end
class Dir; class << self; alias exists? exist? unless method_defined?(:exists?); end; end
