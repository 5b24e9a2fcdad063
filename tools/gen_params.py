#!/usr/bin/env python3
"""generate_parameter_library stand-in: gen_params.py in.yaml out.hpp"""
import sys, yaml
T={'bool':('bool','as_bool'),'int':('int64_t','as_int'),'double':('double','as_double'),'string':('std::string','as_string'),
   'string_array':('std::vector<std::string>','as_string_array'),'double_array':('std::vector<double>','as_double_array'),'int_array':('std::vector<int64_t>','as_integer_array'),'bool_array':('std::vector<bool>','as_bool_array')}
def lit(t,v):
    if t=='bool': return 'true' if v else 'false'
    if t=='string': return '"'+str(v)+'"'
    if t=='double':
        import math
        if isinstance(v,float) and math.isnan(v): return 'std::numeric_limits<double>::quiet_NaN()'
        return repr(float(v))
    if t.endswith('_array'): return T[t][0]+'{'+', '.join(lit(t[:-6],x) for x in v)+'}'
    return str(v)
def main():
    y=yaml.safe_load(open(sys.argv[1])); ns=list(y)[0]; leaves=[]
    def struct(name,d,path,ind):
        s=''; p='  '*ind
        for k,v in d.items():
            if isinstance(v,dict) and 'type' in v and isinstance(v['type'],str):
                t=v['type']; leaves.append((path+[k],v))
                s+=f'{p}{T[t][0]} {k}{" = "+lit(t,v["default_value"]) if "default_value" in v else "{}"};\n'
            elif isinstance(v,dict):
                if k.startswith('__map_'): raise SystemExit('maps are not supported')
                cn=''.join(x.capitalize() for x in k.split('_'))
                s+=f'{p}struct {cn} {{\n{struct(cn,v,path+[k],ind+1)}{p}}} {k};\n'
        return s
    body=struct('Params',y[ns],[],2)
    o=['#pragma once','#include <limits>','#include <memory>','#include <mutex>','#include <set>','#include <string>','#include <vector>','#include "rclcpp/rclcpp.hpp"',f'namespace {ns}','{',
       '  struct Params {','    rclcpp::Time __stamp;',body,'  };','  struct StackParams {};','  class ParamListener {','  public:']
    o.append('''    template <class NodeT> ParamListener(NodeT node, std::string const & prefix = "") : ParamListener(node->get_node_parameters_interface(), node->get_logger(), prefix) {}
    ParamListener(const std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> & pi, std::string const & prefix = "") : ParamListener(pi, rclcpp::get_logger("params"), prefix) {}
    ParamListener(const std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> & pi, rclcpp::Logger logger, std::string const & prefix = "") : pi_(pi), logger_(logger)
    {
      prefix_ = prefix; if (!prefix_.empty() && prefix_.back() != '.') prefix_ += ".";
      declare_params();
      h_ = pi_->add_on_set_parameters_callback([this](const std::vector<rclcpp::Parameter> & ps) { return update(ps); });
    }
    Params get_params() const { std::lock_guard<std::mutex> l(m_); return params_; }
    bool try_get_params(Params & p) const { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (l.owns_lock()) { bool upd = p.__stamp != params_.__stamp; if (upd) p = params_; return upd; } return false; }
    bool is_old(Params const & o) const { std::lock_guard<std::mutex> l(m_); return params_.__stamp != o.__stamp; }
    void refresh_dynamic_parameters() {}
    void unlock() {}
    void setUserCallback(std::function<void(const Params &)> cb) { user_ = cb; }
''')
    def val(t,v,name,x):
        s=''
        for k,a in (v or {}).items():
            k=k.replace('<>','')
            a0=a[0] if isinstance(a,list) and a else a
            c=None
            if k=='gt': c=f'{x} > {a0}'
            elif k=='gt_eq': c=f'{x} >= {a0}'
            elif k=='lt': c=f'{x} < {a0}'
            elif k=='lt_eq': c=f'{x} <= {a0}'
            elif k=='bounds': c=f'{x} >= {a[0]} && {x} <= {a[1]}'
            elif k=='not_empty': c=f'!{x}.empty()'
            elif k=='one_of': c=f'(std::set<{T[t][0]}>{{{", ".join(lit(t,q) for q in a[0])}}}).count({x}) > 0'
            elif k=='unique': c=f'std::set<std::string>({x}.begin(), {x}.end()).size() == {x}.size()'
            if c: s+=f' if (!({c})) return "Parameter \'{name}\' violates {k}";'
        return s
    o.append('    void declare_params()\n    {\n      Params up = params_;')
    for path,v in leaves:
        n='.'.join(path); t=v['type']; ct,ac=T[t]; f='up.'+n
        o.append(f'      {{ rcl_interfaces::msg::ParameterDescriptor d; d.read_only = {"true" if v.get("read_only") else "false"};')
        if 'default_value' in v: o.append(f'        if (!pi_->has_parameter(prefix_ + "{n}")) pi_->declare_parameter(prefix_ + "{n}", rclcpp::ParameterValue({f}), d);')
        else: o.append(f'        if (!pi_->has_parameter(prefix_ + "{n}")) pi_->declare_parameter(prefix_ + "{n}", rclcpp::ParameterValue({ct}{{}}).get_type(), d);')
        o.append(f'        rclcpp::Parameter p = pi_->get_parameter(prefix_ + "{n}"); {f} = p.{ac}();')
        o.append(f'        auto e = check_{"_".join(path)}({f}); if (!e.empty()) throw rclcpp::exceptions::InvalidParameterValueException("Invalid value set during initialization for parameter \'{n}\': " + e); }}')
    o.append('      up.__stamp = rclcpp::Time(++n_); params_ = up;\n    }')
    o.append('    rcl_interfaces::msg::SetParametersResult update(const std::vector<rclcpp::Parameter> & ps)\n    {\n      Params up = get_params(); rcl_interfaces::msg::SetParametersResult r; r.successful = true;\n      for (const auto & p : ps) {')
    for path,v in leaves:
        n='.'.join(path); t=v['type']; ct,ac=T[t]
        o.append(f'        if (p.get_name() == prefix_ + "{n}") {{ up.{n} = p.{ac}(); auto e = check_{"_".join(path)}(up.{n}); if (!e.empty()) {{ r.successful = false; r.reason = e; return r; }} }}')
    o.append('      }\n      std::lock_guard<std::mutex> l(m_); up.__stamp = rclcpp::Time(++n_); params_ = up; return r;\n    }')
    o.append('  private:')
    for path,v in leaves:
        t=v['type']; ct=T[t][0]
        o.append(f'    static std::string check_{"_".join(path)}([[maybe_unused]] const {ct} & x) {{{val(t,v.get("validation"),".".join(path),"x")} return ""; }}')
    o.append('''    std::shared_ptr<rclcpp::node_interfaces::NodeParametersInterface> pi_; rclcpp::Logger logger_; std::string prefix_; Params params_; mutable std::mutex m_; int64_t n_ = 0;
    rclcpp::node_interfaces::OnSetParametersCallbackHandle::SharedPtr h_; std::function<void(const Params &)> user_;
  };
}''')
    s='\n'.join(o)
    import os
    if not (os.path.exists(sys.argv[2]) and open(sys.argv[2]).read()==s):
        os.makedirs(os.path.dirname(sys.argv[2]),exist_ok=True); open(sys.argv[2],'w').write(s)
main()
