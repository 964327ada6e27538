# Drives Ferret::Index::Index: one JSON line per command, as the C drivers do.
require 'json'
require 'fileutils'
require 'ferret'
include Ferret
OUT = STDOUT.dup
STDOUT.reopen(STDERR)      # whatever the library prints is not an answer
$n = 0
def fields
  fi = Index::FieldInfos.new
  %w[u id k2 w].each {|f| fi.add_field(f.to_sym, :store => :yes, :index => :untokenized) }
  fi.add_field(:t)
  fi
end
def teardown
  ($ix || {}).each_value {|i| begin; i.close; rescue StandardError; end }
  $ix = {}
  FileUtils.rm_rf($path) if $path
  $path = nil; $ram = nil
end
def opts(create)
  o = {:key => $key, :auto_flush => $af, :field_infos => fields, :max_buffered_docs => $mbd, :merge_factor => $mf,
       :use_compound_file => $cf, :lock_retry_time => 0}
  if $ram then o[:dir] = $ram else o[:path] = $path end
  o[:create] = true if create
  o
end
def doc(s, kind = 0)
  u, id, k2, w = s.split(',')
  h = {:u => u, :id => (kind & 1 == 1 ? id.to_i : id), :k2 => k2, :w => w, :t => "text of #{w}"}
  if kind & 2 == 2
    d = Document.new(kind & 1 == 1 ? 2.0 : 1.0); h.each {|k, v| d[k] = v }; d
  else h end
end
def tq(f, v, kind) kind & 1 == 1 ? "#{f}:#{v}" : Search::TermQuery.new(f.to_sym, v) end
def us(ix, ns) ns.map {|n| ix[n][:u].to_i } end
def num(ix, u) ns = ix.scan(Search::TermQuery.new(:u, u), :limit => :all); ns[0] end
def arg(ix, s) s[0] == 's' ? s[1..-1] : s[0] == 'y' ? s[1..-1].to_sym : num(ix, s[1..-1]) end
def run(a)
  op = a.shift
  if op == 'config'
    teardown
    kk, af, ram, mbd, mf, cf = a.map(&:to_i)
    $key = [nil, :id, [:id, :k2], [:id], [:k2, :id]][kk]; $af = af == 1; $mbd = mbd; $mf = mf; $cf = cf == 1
    $n += 1
    if ram == 1 then $ram = Store::RAMDirectory.new else $path = File.join(Dir.pwd, "rx#{$n}") end
    $ix[1] = Index::Index.new(opts(true))
    return {}
  end
  o = a.shift.to_i
  if op == 'open' then $ix[o] = Index::Index.new(opts(false)); return {} end
  ix = $ix[o]
  case op
  when 'close' then ix.close; $ix.delete(o); {}
  when 'add' then ix.add_document(doc(a[1], a[0].to_i)); {}
  when 'del' then ix.delete(arg(ix, a[0])); {}
  when 'bdel'
    l = a[1..-1].map {|s| arg(ix, s) }.uniq
    ix.delete(a[0] == '1' ? Hash[l.map {|x| [x, 1] }] : l); {}
  when 'qdel' then ix.query_delete(tq('w', a[1], a[0].to_i)); {}
  when 'upd' then ix.update(arg(ix, a[0]), doc(a[2], a[1].to_i)); {}
  when 'bupd' then ix.batch_update(a.map {|s| doc(s) }); {}
  when 'hupd' then ix.batch_update(Hash[a.each_slice(2).map {|x, d| [arg(ix, x), doc(d)] }]); {}
  when 'qupd' then ix.query_update(tq('w', a[1], a[0].to_i), {:w => a[2]}); {}
  when 'flush' then ix.flush; {}
  when 'opt' then ix.optimize; {}
  when 'addidx'
    r = Index::Index.new(:field_infos => fields)
    a[1..-1].each {|s| r << doc(s) }
    case a[0]
    when '0' then ix.add_indexes(r)
    when '1' then r.flush; ix.add_indexes(r.reader)
    else r.flush; ix.add_indexes(r.instance_variable_get(:@dir)) end
    r.close; {}
  when 'persist'
    $n += 1; $path = File.join(Dir.pwd, "rx#{$n}"); ix.persist($path); $ram = nil; {}
  when 'size' then {:v => ix.size}
  when 'each' then l = []; ix.each {|d| l << %w[u id k2 w].map {|f| d[f.to_sym].to_s } }; {:v => l}
  when 'doc' then d = ix[a[0]]; {:v => d ? [d.load[:u]] : []}
  when 'live'
    m = ix.reader.max_doc; {:v => (0...m).reject {|i| ix.deleted?(i) }.map {|i| ix[i][:u] }}
  when 'find'
    q = tq('w', a[1], a[0].to_i & 1)
    case a[0].to_i >> 1
    when 0 then t = ix.search(q, :limit => :all); {:v => t.hits.map {|h| ix[h.doc][:u] }, :n => t.total_hits}
    when 1 then l = []; n = ix.search_each(q, :limit => :all) {|d, s| l << ix[d][:u] }; {:v => l, :n => n}
    else l = ix.scan(q, :limit => :all); {:v => l.map {|d| ix[d][:u] }, :n => l.size} end
  when 'str' then {:v => ix.to_s.scan(/\bu\W+(\d+)/).map {|x| x[0] }}
  else {:bad_command => op}
  end
end
$ix = {}
while line = STDIN.gets
  line.chomp!
  if line == '#end' then teardown; OUT.puts line; OUT.flush; break end
  if line.start_with?('#ep') then teardown; $bad = nil; OUT.puts line; OUT.flush; next end
  r = begin; $bad ? {:err => 'after an error'} : run(line.split(' ')); rescue StandardError, NotImplementedError => e
    {:err => e.class.to_s + ": " + e.message[0, 300].gsub(/[^ -~]/, ' '), :at => (e.backtrace || []).grep(/index\.rb/)[0].to_s[-40..-1].to_s} end
  $bad ||= r[:err]
  OUT.puts JSON.generate(r); OUT.flush
end
