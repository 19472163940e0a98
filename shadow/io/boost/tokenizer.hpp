// Model of boost::tokenizer with char_separator dropping the delimiters.
#pragma once
#include <string>
namespace boost {
enum empty_token_policy { drop_empty_tokens, keep_empty_tokens };
template <typename C> struct char_separator {
  std::basic_string<C> d;
  explicit char_separator(const C* dropped) : d(dropped) {}
};
template <typename F> class tokenizer {
  std::string s_;
  F f_;
 public:
  tokenizer(const std::string& s, const F& f) : s_(s), f_(f) {}
  class iterator {
    const tokenizer* t_;
    size_t p_;
    bool end_;
    std::string tok_;
    bool sep(char c) const { for (char d : t_->f_.d) if (c == d) return true; return false; }
    void next() {
      while (p_ < t_->s_.size() && sep(t_->s_[p_])) p_++;
      if (p_ >= t_->s_.size()) { end_ = true; return; }
      tok_.clear();
      while (p_ < t_->s_.size() && !sep(t_->s_[p_])) tok_.push_back(t_->s_[p_++]);
    }
   public:
    iterator(const tokenizer* t, bool end) : t_(t), p_(0), end_(end) { if (!end) next(); }
    const std::string& operator*() const { return tok_; }
    const std::string* operator->() const { return &tok_; }
    iterator& operator++() { next(); return *this; }
    iterator operator++(int) { iterator o = *this; next(); return o; }
    bool operator==(const iterator& o) const { return end_ == o.end_ && (end_ || p_ == o.p_); }
    bool operator!=(const iterator& o) const { return !(*this == o); }
  };
  typedef iterator const_iterator;
  iterator begin() const { return iterator(this, false); }
  iterator end() const { return iterator(this, true); }
};
}  // namespace boost
