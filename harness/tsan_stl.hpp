// ThreadSanitizer sees only instrumented code. The link operations of std::list and std::map live in libstdc++.so, which is not
// instrumented, so an unlocked look at a list that another thread is changing would go unnoticed. The executable's own
// definitions of these functions take precedence over the library's, and these are instrumented.
#pragma once
#ifdef VH_TSAN
#include <dlfcn.h>
#include <list>
#include <map>

namespace std
{
	namespace __detail
	{
		void _List_node_base::_M_hook(_List_node_base* const position) noexcept
		{
			_M_next = position;
			_M_prev = position->_M_prev;
			position->_M_prev->_M_next = this;
			position->_M_prev = this;
		}

		void _List_node_base::_M_unhook() noexcept
		{
			_List_node_base* const next = _M_next;
			_List_node_base* const prev = _M_prev;
			prev->_M_next = next;
			next->_M_prev = prev;
		}

		void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
		{
			if (this == last)
				return;
			last->_M_prev->_M_next = this;
			first->_M_prev->_M_next = last;
			_M_prev->_M_next = first;
			_List_node_base* const tmp = _M_prev;
			_M_prev = last->_M_prev;
			last->_M_prev = first->_M_prev;
			first->_M_prev = tmp;
		}
	}

	namespace vh_detail
	{
		inline void touch(_Rb_tree_node_base* n)
		{
			if (!n) return;
			_Rb_tree_node_base* volatile& l = const_cast<_Rb_tree_node_base* volatile&>(n->_M_left);
			_Rb_tree_node_base* volatile& r = const_cast<_Rb_tree_node_base* volatile&>(n->_M_right);
			_Rb_tree_node_base* volatile& p = const_cast<_Rb_tree_node_base* volatile&>(n->_M_parent);
			l = l; r = r; p = p;
		}
	}

	void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept
	{
		using fn = void (*)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
		static const fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"));
		vh_detail::touch(p);
		if (p != &header) vh_detail::touch(&header);
		real(left, x, p, header);
	}

	_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept
	{
		using fn = _Rb_tree_node_base* (*)(_Rb_tree_node_base*, _Rb_tree_node_base&);
		static const fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"));
		vh_detail::touch(z);
		vh_detail::touch(z->_M_parent);
		if (z->_M_parent != &header) vh_detail::touch(&header);
		return real(z, header);
	}
}
#endif
